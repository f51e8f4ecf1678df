"""Interprocedural abstract interpreter over the driver's MIR."""
import os
import struct as _struct
from .poly import *
from . import poly as _p
from .val import *
from .state import *
from .mir import Prog

USZ = (1 << 64) - 1
CAP = 6          # states kept per join point before joining
DEPTH = 40


class Giveup(Exception):
    pass


class Obl:
    __slots__ = ("key", "kind", "fn", "line", "desc", "proved", "undec", "viol", "model", "trail", "n")

    def __init__(self, key, kind, fn, line, desc):
        self.key, self.kind, self.fn, self.line, self.desc = key, kind, fn, line, desc
        self.proved = self.undec = self.viol = 0
        self.model = None
        self.trail = None


class Frame:
    __slots__ = ("fn", "id", "eng", "site")
    n = 0

    def __init__(self, fn):
        Frame.n += 1
        self.fn, self.id = fn, Frame.n


class LoopInfo:
    def __init__(self, **k):
        self.__dict__.update(k)


class Engine:
    def __init__(self, prog, contracts=None, cfg=None):
        self.prog = prog
        self.tys = prog.tys
        self.contracts = contracts or {}
        self.cfg = cfg or {}
        self.nbuf = 0
        self.ncell = 0
        self.uid = 0
        self.memo = {}
        self.obls = {}
        self.rawp = {}
        self.log = []          # pending obligation outcomes
        self.mute = 0
        self.stack = []
        self.loops = []
        self.steps = 0
        self.maxsteps = 400000
        self.deadline = None
        self.unknown = {}
        self.visited = set()
        self.calls = set()
        self.hooks = {}
        self.recs = []
        self.mapid = {}
        self.elsyms = {}
        self.histcalls = []
        from . import lib
        self.lib = lib

    # ------------------------------------------------------------ fresh things
    def fresh(self, name, kind=INPUT, lo=0, hi=USZ):
        return S(new_sym(name, kind, lo, hi))

    def opaque(self, name, taint=EMPTY):
        self.uid += 1
        return BoolV(("opq", f"{name}#{self.uid}", taint))

    def new_buf(self, st, ety, root, base=None, taint=EMPTY, length=None):
        self.nbuf += 1
        b = self.nbuf
        st.bufs[b] = Buf(ety, root, base or ("leaf", f"{root}@{b}"), taint, 0, (), (), EMPTY, length)
        return b

    def new_cell(self, st, v):
        self.ncell += 1
        st.cells[("h", self.ncell)] = v
        return ("h", self.ncell)

    def int_range(self, t):
        k = t["k"]
        if k == "int":
            b = t["bits"]
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t["signed"] else (0, (1 << b) - 1)
        if k == "char":
            return 0, 0x10FFFF
        return 0, 1

    def fval(self, ty, name, taint, kind):
        return fe("leaf", name, bits=self.tys[ty]["bits"], taint=taint)

    def slice_elem(self, ty):
        t = self.tys[ty]
        if t["k"] == "slice":
            return t["e"]
        return None

    def fresh_val(self, st, ty, name, taint=EMPTY, kind=INPUT, root=None, lazy=False):
        """an arbitrary value of a type"""
        t = self.tys[ty]
        k = t["k"]
        root = root or name
        if k in ("int", "char"):
            lo, hi = self.int_range(t)
            return self.fresh(name, kind, lo, hi)
        if k == "bool":
            return self.opaque(("free:" if kind in (INPUT, HIST) else "") + name, taint)
        if k == "float":
            return self.fval(ty, name, taint, kind)
        if k in ("ref", "ptr"):
            e = self.tys[t["e"]]
            mut = bool(t.get("mut"))
            if e["k"] == "slice":
                n = self.fresh(f"{name}.len", kind, 0, LENMAX)
                return Slc(self.new_buf(st, e["e"], root, taint=taint, length=n), ZERO, n, mut)
            if e["k"] == "str":
                return StrV(None, taint)
            c = self.new_cell(st, Top(t["e"], name, taint, kind))
            st.cells[c] = self.fresh_val(st, t["e"], name, taint, kind, root)
            return Ref(("c", c), (), mut)
        if k == "array":
            n = self.const_len(t["n"])
            return Arr(self.new_buf(st, t["e"], root, taint=taint, length=n), n)
        if k == "tuple":
            return Struct("tuple", tuple(self.fresh_val(st, f, f"{name}.{i}", taint, kind, root) for i, f in enumerate(t["f"])))
        if k == "adt":
            p = t["path"]
            if p == "alloc::vec::Vec":
                ety = t["args"][0][1]
                n = self.fresh(f"{name}.len", kind, 0, LENMAX)
                return Vec(self.new_buf(st, ety, root, taint=taint, length=n), n)
            if p in ("alloc::sync::Arc", "alloc::rcs::arc::Arc", "alloc::boxed::Box", "alloc::rc::Rc"):
                e = self.tys[t["args"][0][1]]
                if e["k"] == "slice":
                    n = self.fresh(f"{name}.len", kind, 0, LENMAX)
                    return BoxS(Slc(self.new_buf(st, e["e"], root, taint=taint, length=n), ZERO, n))
                if e["k"] in ("dyn",):
                    return Top(ty, name, taint, kind)
                return BoxC(self.new_cell(st, self.fresh_val(st, t["args"][0][1], name, taint, kind, root)))
            if p.endswith("::HashMap") :
                return MapV(name, t["args"][0][1], t["args"][1][1])
            if p == "core::cell::UnsafeCell":
                return Struct("core::cell::UnsafeCell", (self.fresh_val(st, t["args"][0][1], name, taint, kind, root),))
            if p == "alloc::string::String":
                return StrV(None, taint)
            if t.get("adt") == "struct" and t.get("variants"):
                fs = t["variants"][0]["fields"]
                if kind in (INPUT, FUZZY) and any(len(f) > 2 and not f[2] for f in fs) and p.startswith("kofft::"):
                    # the fields of an object are related by the operations that built it: only planners, whose
                    # work buffers may have any length left by earlier calls, are free
                    kind = HIST if any(self.tys[f[1]]["k"] == "adt" and self.tys[f[1]]["path"].endswith("::HashMap") for f in fs) else FUZZY
                vals = [self.fresh_val(st, f[1], f"{name}.{f[0]}", taint, kind, root) for f in fs]
                vals = [v._replace(ident=f"{p}.{f[0]}") if isinstance(v, MapV) else v for v, f in zip(vals, fs)]
                return Struct(p, tuple(vals))
            return Top(ty, name, taint, kind)
        if k == "fndef":
            return FnV(t.get("inst") or t["path"], t)
        if k == "closure":
            return Struct(("closure", t.get("inst") or t["path"]), tuple(
                self.fresh_val(st, f, f"{name}.{i}", taint, kind, root) for i, f in enumerate(t["f"])))
        return Top(ty, name, taint, kind)

    def const_len(self, n):
        if isinstance(n, int):
            return P(n)
        if isinstance(n, str) and n.isdigit():
            return P(int(n))
        key = ("clen", n)
        if key not in self.memo:
            self.memo[key] = S(new_sym(f"const {n}", INPUT, 0, LENMAX))
        return self.memo[key]

    # ------------------------------------------------------------ buffers
    def elem_leaf(self, st, buf, bid, idx, taint):
        """value of an element of unmodified content"""
        key = ("el", buf.base[1], buf.ver, idx, taint)
        v = self.memo.get(key)
        if v is None:
            v = self._elem_val(st, buf.ety, buf.base[1], buf.ver, idx, (), taint, buf.root,
                               INPUT if buf.ver == 0 and buf.root.startswith("arg:") else FUZZY)
            self.memo[key] = v
            for x in elem_syms(v):
                self.elsyms[x] = (buf.base[1], buf.ver, idx, buf.root, v)
                ELROOT[x] = buf.root
        self.ensure(st, v, buf.root, taint)
        self.instantiate(st, buf, idx, v)
        return v

    def instantiate(self, st, buf, idx, v):
        """apply facts established by earlier loops over all elements of this buffer"""
        for n in sorted((n for n in st.note if n[0] == "fa" and n[1] == buf.base[1] and n[2] == buf.ver), key=repr):
            _, _, _, off, conds, pv, hi = n
            k = idx - off
            if st.ent_ge(k) and st.ent_ge(hi - k - 1):
                env = {}
                pair(pv, v, env)
                for kind, p in conds:
                    r = assume(st, (kind, p.subst(env)))
                    if len(r) == 1:
                        st.cons, st.nes, st.pow2, st.npow2 = r[0].cons, r[0].nes, r[0].pow2, r[0].npow2
            elif not (st.ent_ge(-k - 1) or st.ent_ge(k - hi)):
                st.note = st.note | {("elf", buf.root)}

    def ensure(self, st, v, root, taint):
        if isinstance(v, (Vec, Arr)) and v.buf not in st.bufs:
            ety = self.memo[("bt", v.buf)]
            st.bufs[v.buf] = Buf(ety, root, ("leaf", f"{root}@{v.buf}"), taint, 0, length=v.len)
        elif isinstance(v, Slc) and v.buf not in st.bufs:
            ety = self.memo[("bt", v.buf)]
            st.bufs[v.buf] = Buf(ety, root, ("leaf", f"{root}@{v.buf}"), taint, 0, length=v.len)
        elif isinstance(v, BoxS):
            self.ensure(st, v.s, root, taint)
        elif isinstance(v, (Struct, Enum)):
            for x in v.f:
                self.ensure(st, x, root, taint)

    def _elem_val(self, st, ty, name, ver, idx, path, taint, root, kind=INPUT):
        t = self.tys[ty]
        k = t["k"]
        if k == "float":
            return fe("elem", name, ver, idx, path, bits=t["bits"], taint=taint)
        if k in ("int", "char"):
            lo, hi = self.int_range(t)
            return self.fresh(f"{name}[{show(idx)}]{path}", kind, lo, hi)
        if k == "bool":
            return self.opaque(("free:" if kind == INPUT else "") + f"{name}[{show(idx)}]", taint)
        if k == "tuple":
            return Struct("tuple", tuple(self._elem_val(st, f, name, ver, idx, path + (i,), taint, root, kind) for i, f in enumerate(t["f"])))
        if k in ("ref",) and self.tys[t["e"]]["k"] == "slice":
            ety = self.tys[t["e"]]["e"]
            n = self.fresh(f"len({name}[{show(idx)}])", kind, 0, LENMAX)
            self.nbuf += 1
            self.memo[("bt", self.nbuf)] = ety
            return Slc(self.nbuf, ZERO, n, bool(t.get("mut")))
        if k == "array":
            self.nbuf += 1
            self.memo[("bt", self.nbuf)] = t["e"]
            return Arr(self.nbuf, self.const_len(t["n"]))
        if k == "adt":
            if t["path"] == "alloc::vec::Vec":
                n = self.fresh(f"len({name}[{show(idx)}]{''.join('.%s' % x for x in path)})", kind, 0, LENMAX)
                self.nbuf += 1
                self.memo[("bt", self.nbuf)] = t["args"][0][1]
                return Vec(self.nbuf, n)
            if t.get("adt") == "struct" and t.get("variants"):
                return Struct(t["path"], tuple(self._elem_val(st, f[1], name, ver, idx, path + (i,), taint, root, kind)
                                               for i, f in enumerate(t["variants"][0]["fields"])))
        return Top(ty, f"{name}[{show(idx)}]", taint, "input")

    def covered(self, st, buf, idx):
        for lo, hi in buf.cover:
            if st.ent_ge(idx - lo) and st.ent_ge(hi - idx - 1):
                return True
        return False

    def rd(self, st, bid, idx):
        b = st.bufs.get(bid)
        if b is None:
            ety = self.memo.get(("bt", bid))
            if ety is None:
                raise Giveup(f"dangling buffer {bid}")
            b = st.bufs[bid] = Buf(ety, "nested", ("leaf", f"nested@{bid}"), EMPTY, 0)
        return self.rd_buf(st, b, bid, idx)

    def same(self, st, a, b):
        """True / False / None"""
        d = a - b
        if d.is_const():
            return d.const == 0
        if st.ent_eq(d):
            return True
        if st.ent_ne(d):
            return False
        return None

    def inrange(self, st, idx, lo, n):
        if st.ent_ge(idx - lo) and st.ent_ge(lo + n - 1 - idx):
            return True
        if st.ent_ge(lo - idx - 1) or st.ent_ge(idx - lo - n):
            return False
        return None

    def rd_buf(self, st, b, bid, idx, depth=0):
        for j in range(len(b.log) - 1, -1, -1):
            e = b.log[j]
            if e[0] == "e":
                r = self.same(st, idx, e[1])
                if r:
                    return e[2]
            elif e[0] == "f":
                r = self.inrange(st, idx, e[1], e[2])
                if r:
                    return e[3]
            else:
                r = self.inrange(st, idx, e[1], e[2])
                if r:
                    return self.rd_buf(st, e[3], -1, idx - e[1] + e[4], depth + 1)
            if r is None:
                return self.blur(st, b, bid, idx)
        if b.base[0] == "fill":
            return b.base[1]
        t = b.taint
        if b.ctaint or b.cover:
            if t - b.ctaint and self.covered(st, b, idx):
                t = b.ctaint
            else:
                t = t | b.ctaint
        return self.elem_leaf(st, b, bid, idx, t)

    def buf_taint(self, st, b, seen=None):
        t = b.taint | b.ctaint
        if b.base[0] == "fill":
            t |= taint_of(b.base[1], st)
        for e in b.log:
            if e[0] == "e":
                t |= taint_of(e[2], st)
            elif e[0] == "f":
                t |= taint_of(e[3], st)
            else:
                t |= self.buf_taint(st, e[3])
        return t

    def blur(self, st, b, bid, idx):
        t = self.buf_taint(st, b)
        cov = False
        if b.cover and self.covered(st, b, idx):
            t = b.ctaint
            for e in b.log:
                if e[0] == "e":
                    t |= taint_of(e[2], st)
                elif e[0] == "f":
                    t |= taint_of(e[3], st)
                else:
                    t |= self.buf_taint(st, e[3])
        name = b.base[1] if b.base[0] == "leaf" else f"fill@{bid}"
        key = ("blur", name, b.ver, idx, t, len(b.log), b.log[-1][1] if b.log else None)
        v = self.memo.get(key)
        if v is None:
            v = self._elem_val(st, b.ety, ("blur", name, len(b.log)), (b.ver, len(b.log)), idx, (), t, b.root, FUZZY)
            self.memo[key] = v
        self.ensure(st, v, b.root, t)
        if b.root == "const" and isinstance(v, Poly) and all(e[0] == "e" and isinstance(e[2], Poly) and e[2].is_const() for e in b.log):
            cs = [e[2].const for e in b.log]
            st.cons = st.cons | {v - min(cs), P(max(cs)) - v}
        return v

    def mark_write(self, st, b):
        st.eff = st.eff | {("w", b.root)}

    def wr(self, st, bid, idx, v):
        b = st.bufs.get(bid)
        if b is None:
            self.rd(st, bid, idx)
            b = st.bufs[bid]
        self.mark_write(st, b)
        log = tuple(e for e in b.log if not (e[0] == "e" and e[1] == idx)) + (("e", idx, v),)
        st.bufs[bid] = self.trim(st, bid, self.cov_add(st, b._replace(log=log), idx, idx + 1))

    def wr_fill(self, st, bid, lo, n, v):
        b = st.bufs[bid]
        self.mark_write(st, b)
        log = b.log + (("f", lo, n, v),)
        st.bufs[bid] = self.trim(st, bid, self.cov_add(st, b._replace(log=log), lo, lo + n))

    def wr_copy(self, st, bid, lo, n, src, soff):
        b = st.bufs[bid]
        self.mark_write(st, b)
        log = b.log + (("r", lo, n, st.bufs[src], soff),)
        st.bufs[bid] = self.trim(st, bid, self.cov_add(st, b._replace(log=log), lo, lo + n))

    def cov_add(self, st, b, lo, hi):
        if not (b.root.startswith("hist") or b.root.startswith("uninit")):
            return b
        cov = list(b.cover)
        ch = True
        while ch:
            ch = False
            for i, (l, h) in enumerate(cov):
                if st.ent_eq(h - lo):
                    lo = l
                    del cov[i]
                    ch = True
                    break
                if st.ent_eq(l - hi):
                    hi = h
                    del cov[i]
                    ch = True
                    break
                if st.ent_ge(lo - l) and st.ent_ge(h - hi):
                    return b
        if len(cov) < 10:
            cov.append((lo, hi))
        return b._replace(cover=tuple(cov))

    def trim(self, st, bid, b):
        if len(b.log) <= LOGMAX:
            return b
        return self.summarise(st, bid, b)

    def summarise(self, st, bid, b, ver=None):
        """forget the precise content, keep the labels"""
        lt = EMPTY
        for e in b.log:
            if e[0] == "e":
                lt |= taint_of(e[2], st)
            elif e[0] == "f":
                lt |= taint_of(e[3], st)
            else:
                lt |= self.buf_taint(st, e[3])
        t = b.taint
        if b.base[0] == "fill":
            t = t | taint_of(b.base[1], st)
        self.uid += 1
        name = f"{b.root}@{bid}"
        return b._replace(base=("leaf", name), log=(), ver=ver if ver is not None else ("s", self.uid), taint=t,
                          ctaint=b.ctaint | lt)

    def havoc_slice(self, st, s, taint, tag):
        """s is overwritten by values computed from `taint` and its own previous content"""
        b = st.bufs.get(s.buf)
        if b is None:
            self.rd(st, s.buf, s.off)
            b = st.bufs[s.buf]
        self.mark_write(st, b)
        # content labels of the part actually read
        own = self.range_taint(st, b, s.off, s.len)
        self.uid += 1
        nb = Buf(b.ety, b.root, ("leaf", f"{tag}#{self.uid}"), own | taint, ("h", self.uid))
        whole = st.ent_eq(s.off) and b.length is not None and st.ent_eq(b.length - s.len)
        log = b.log + (("r", s.off, s.len, nb, s.off),)
        st.bufs[s.buf] = self.trim(st, s.buf, self.cov_add(st, b._replace(log=log), s.off, s.off + s.len))
        return own

    def range_taint(self, st, b, lo, n):
        """labels of content in [lo, lo+n)"""
        t = EMPTY
        for e in reversed(b.log):
            if e[0] == "e":
                if st.ent_ge(lo - e[1] - 1) or st.ent_ge(e[1] - lo - n):
                    continue
                t |= taint_of(e[2], st)
            else:
                if st.ent_ge(lo - e[1] - e[2]) or st.ent_ge(e[1] - lo - n):
                    continue
                t |= taint_of(e[3], st) if e[0] == "f" else self.buf_taint(st, e[3])
                if st.ent_ge(lo - e[1]) and st.ent_ge(e[1] + e[2] - lo - n):
                    return t
        base = b.taint
        if b.base[0] == "fill":
            base = base | taint_of(b.base[1], st)
        t |= b.ctaint
        for l, h in b.cover:
            if st.ent_ge(lo - l) and st.ent_ge(h - lo - n):
                return t
        return t | base

    # ------------------------------------------------------------ places
    def cell_get(self, st, c, fr=None):
        v = st.cells.get(c)
        if v is None:
            return UNINIT
        return v

    def walk(self, st, v, path):
        for step in path:
            if step[0] == "v":
                continue
            i = step[1]
            if isinstance(v, (Struct, Enum)):
                if i < len(v.f):
                    v = v.f[i]
                    continue
                v = Top(step[2], "field", EMPTY, "fuzzy")
                continue
            if isinstance(v, Top):
                nv = self.expand(st, v)
                if isinstance(nv, (Struct, Enum)) and i < len(nv.f):
                    v = nv.f[i]
                else:
                    key = ("tf", v.name, v.ty, i, step[2])
                    if key not in self.memo:
                        self.memo[key] = self.fresh_val(st, step[2], f"{v.name}.{i}", v.taint, v.kind if v.kind in (INPUT, HIST) else FUZZY)
                    v = self.memo[key]
                    self.ensure_deep(st, v, step[2])
                continue
            if isinstance(v, (Iter, MapV, StrV, Vec, BoxC, BoxS)):
                v = Top(step[2], "inner", EMPTY, "fuzzy")
                continue
            v = Top(step[2], "field", EMPTY, "fuzzy")
        return v

    def ensure_deep(self, st, v, ty):
        pass

    def expand(self, st, v):
        t = self.tys[v.ty]
        if t["k"] in ("tuple", "array", "int", "float", "bool", "ref") or (t["k"] == "adt" and t.get("adt") == "struct" and t.get("variants")):
            key = ("ex", v)
            r = self.memo.get(key)
            if r is None:
                kind = v.kind if v.kind in (INPUT, HIST) else FUZZY
                b0, c0 = set(st.bufs), set(st.cells)
                r = self.fresh_val(st, v.ty, v.name, v.taint, kind)
                if isinstance(r, Top):
                    return v
                self.memo[key] = r
                self.memo[("exb", v)] = ({k: x for k, x in st.bufs.items() if k not in b0}, {k: x for k, x in st.cells.items() if k not in c0})
            else:
                nb, nc = self.memo[("exb", v)]
                for k, x in nb.items():
                    st.bufs.setdefault(k, x)
                for k, x in nc.items():
                    st.cells.setdefault(k, x)
            return r
        return v

    def put(self, st, v, path, nv):
        if not path:
            return nv
        step = path[0]
        if step[0] == "v":
            if isinstance(v, Enum):
                return self.put(st, v, path[1:], nv)
            return self.put(st, Enum("?", step[1], ()), path[1:], nv)
        i = step[1]
        if isinstance(v, Top):
            v = self.expand(st, v)
        if not isinstance(v, (Struct, Enum)):
            v = Struct("?", ())
        f = list(v.f)
        while len(f) <= i:
            f.append(UNINIT)
        f[i] = self.put(st, f[i], path[1:], nv)
        return v._replace(f=tuple(f))

    def load(self, st, loc):
        base, path = loc
        if base[0] == "c":
            v = self.cell_get(st, base[1])
        elif base[0] == "b":
            v = self.rd(st, base[1], base[2])
        else:
            return base[1]
        return self.walk(st, v, path) if path else v

    def store(self, st, loc, nv):
        base, path = loc
        if base[0] == "c":
            c = base[1]
            if path:
                st.cells[c] = self.put(st, self.cell_get(st, c), path, nv)
            else:
                st.cells[c] = nv
            if c[0] == "h":
                st.eff = st.eff | {("wc", c)}
        elif base[0] == "b":
            if path:
                v = self.put(st, self.rd(st, base[1], base[2]), path, nv)
            else:
                v = nv
            self.wr(st, base[1], base[2], v)

    def ploc(self, st, fr, place):
        loc = (("c", (fr.id, place[0])), ())
        for e in place[1]:
            k = e[0]
            if k == "deref":
                v = self.load(st, loc)
                if isinstance(v, Top):
                    v2 = self.expand(st, v)
                    if v2 is not v:
                        self.store(st, loc, v2)
                        v = v2
                if isinstance(v, Ref):
                    loc = (v.base, v.path)
                elif isinstance(v, Slc):
                    loc = (("s", v), ())
                elif isinstance(v, BoxC):
                    loc = (("c", v.cell), ())
                elif isinstance(v, BoxS):
                    loc = (("s", v.s), ())
                elif isinstance(v, RawP):
                    loc = (("b", v.buf, v.off), ())
                elif isinstance(v, StrV):
                    loc = (("s", v), ())
                else:
                    c = self.new_cell(st, Top(0, "deref", EMPTY, "fuzzy"))
                    loc = (("c", c), ())
            elif k == "field":
                loc = (loc[0], loc[1] + (("f", e[1], e[2]),))
            elif k == "downcast":
                loc = (loc[0], loc[1] + (("v", e[1]),))
            elif k in ("index", "cindex", "subslice"):
                if loc[0][0] == "s":
                    s = loc[0][1]
                    if not isinstance(s, Slc):
                        raise Giveup("index into " + type(s).__name__)
                    buf, off, ln = s.buf, s.off, s.len
                else:
                    v = self.load(st, loc)
                    if isinstance(v, Top):
                        v2 = self.expand(st, v)
                        if v2 is not v:
                            self.store(st, loc, v2)
                        v = v2
                    if not isinstance(v, (Arr, Vec)):
                        raise Giveup(f"index into {type(v).__name__}")
                    buf, off, ln = v.buf, ZERO, v.len
                if k == "index":
                    ix = st.cells.get((fr.id, e[1]))
                    if not isinstance(ix, Poly):
                        ix = self.fresh("ix", FUZZY)
                    loc = (("b", buf, off + ix), ())
                elif k == "cindex":
                    ix = ln - e[1] if e[3] else P(e[1])
                    loc = (("b", buf, off + ix), ())
                else:
                    lo, hi, fe_ = e[1], e[2], e[3]
                    n = ln - lo - hi if fe_ else P(hi - lo)
                    loc = (("s", Slc(buf, off + lo, n, True)), ())
            else:
                raise Giveup("proj " + k)
        return loc

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        k = o[0]
        if k in ("copy", "move"):
            v = self.load(st, self.ploc(st, fr, o[1]))
            if k == "copy" and isinstance(v, Arr):
                self.nbuf += 1
                st.bufs[self.nbuf] = st.bufs[v.buf]
                v = Arr(self.nbuf, v.len)
            return v
        if k == "const":
            return self.const(st, o[1])
        if k == "rtcheck":
            return FALSE
        raise Giveup("operand " + k)

    def const(self, st, c):
        ty = c["ty"]
        t = self.tys[ty]
        k = t["k"]
        if "fn" in c:
            return FnV(c.get("inst") or c["fn"], c)
        if k == "float" and "bits" in c:
            b = int(c["bits"])
            x = _struct.unpack("<f", _struct.pack("<I", b))[0] if t["bits"] == 32 else _struct.unpack("<d", _struct.pack("<Q", b))[0]
            if x != x or x in (float("inf"), float("-inf")):
                return fe("const", repr(x), bits=t["bits"])
            return fe("const", x, bits=t["bits"])
        if k == "bool" and "bits" in c:
            return TRUE if int(c["bits"]) else FALSE
        if k in ("int", "char") and "bits" in c:
            v = int(c["bits"])
            if k == "int" and t["signed"] and v >= 1 << (t["bits"] - 1):
                v -= 1 << t["bits"]
            return P(v)
        if "str" in c:
            return StrV(c["str"])
        if c.get("zst"):
            return self.zst(st, ty)
        if "param" in c:
            if k in ("int",):
                return self.const_len(c["param"] if isinstance(c["param"], str) else str(c["param"]))
        if k == "adt" and t.get("adt") == "enum" and ("bits" in c or "bytes" in c):
            d = int(c["bits"]) if "bits" in c else int.from_bytes(bytes.fromhex(c["bytes"])[:8], "little")
            sz = [v for v in t["variants"] if int(v["disc"]) == d]
            if len(sz) == 1 and not sz[0]["fields"]:
                return Enum(t["path"], t["variants"].index(sz[0]), ())
        if k in ("ref", "ptr"):
            e = self.tys[t["e"]]
            if e["k"] == "array" and isinstance(e["n"], (int, str)):
                n = self.const_len(e["n"])
                bid, vals = self.const_buf(st, e["e"], c, ("cref", str(c.get("def")), str(c.get("promoted")), str(c.get("bytes"))[:200]))
                cell = self.new_cell(st, Arr(bid, n))
                return Ref(("c", cell), ())
            if e["k"] == "slice":
                n = self.fresh("constlen", INPUT, 0, 4096)
                return Slc(self.new_buf(st, e["e"], "const"), ZERO, n)
            if e["k"] in ("int", "float", "bool", "char") and c.get("bytes"):
                raw = bytes.fromhex(c["bytes"])
                w = (e.get("bits") or 8) // 8
                bits = int.from_bytes(raw[:w], "little")
                cell = self.new_cell(st, self.const(st, {"ty": t["e"], "bits": str(bits)}))
                return Ref(("c", cell), ())
            if "static" in c:
                cell = ("static", str(c["static"]))
                if cell not in st.cells:
                    st.cells[cell] = Top(t["e"], f"static {c['static']}", frozenset(), INPUT)
                return Ref(("c", cell), ())
        if k == "array":
            n = self.const_len(t["n"])
            bid, vals = self.const_buf(st, t["e"], c, None)
            return Arr(bid, n)
        nm = f"const:{c.get('def') or ''}"
        if k == "adt" and t.get("adt") == "struct" and t.get("variants") and "bytes" in c:
            fs = t["variants"][0]["fields"]
            if all(self.tys[f[1]]["k"] == "float" for f in fs):
                raw = bytes.fromhex(c["bytes"])
                out, p = [], 0
                for f in fs:
                    w = self.tys[f[1]]["bits"] // 8
                    out.append(fe("const", _struct.unpack("<f" if w == 4 else "<d", raw[p:p + w])[0], bits=w * 8))
                    p += w
                return Struct(t["path"], tuple(out))
        return self.fresh_val(st, ty, nm, EMPTY, INPUT, "const")

    def const_buf(self, st, ety, c, key):
        bid = self.new_buf(st, ety, "const")
        et = self.tys[ety]
        vals = None
        if "bytes" in c and c["bytes"] is not None:
            raw = bytes.fromhex(c["bytes"])
            if et["k"] == "float":
                w = et["bits"] // 8
                vals = [fe("const", _struct.unpack("<f" if w == 4 else "<d", raw[i:i + w])[0], bits=w * 8) for i in range(0, len(raw) - w + 1, w)]
            elif et["k"] == "int":
                w = et["bits"] // 8
                vals = [P(int.from_bytes(raw[i:i + w], "little", signed=et["signed"])) for i in range(0, len(raw) - w + 1, w)]
        b = st.bufs[bid]
        if vals is not None and len(vals) <= 32:
            st.bufs[bid] = b._replace(log=tuple(("e", P(i), v) for i, v in enumerate(vals)))
        return bid, vals

    def zst(self, st, ty):
        t = self.tys[ty]
        k = t["k"]
        if k == "tuple":
            return UNIT
        if k == "fndef":
            return FnV(t.get("inst") or t["path"], t)
        if k == "closure":
            return Struct(("closure", t.get("inst") or t["path"]), ())
        if k == "array":
            return Arr(self.new_buf(st, t["e"], "alloc"), ZERO)
        if k == "adt":
            if t.get("adt") == "struct":
                return Struct(t["path"], ())
        return Struct("zst", ())

    # ------------------------------------------------------------ ints
    def toint(self, v, name="int"):
        if isinstance(v, Poly):
            return v
        if isinstance(v, BoolV):
            if v.c[0] == "c":
                return P(1 if v.c[1] else 0)
            return self.fresh("boolint", FUZZY, 0, 1)
        if isinstance(v, Top) and self.tys[v.ty]["k"] == "int":
            lo, hi = self.int_range(self.tys[v.ty])
            key = ("ti", v)
            if key not in self.memo:
                self.memo[key] = self.fresh(v.name, v.kind if v.kind in (INPUT, HIST) else FUZZY, lo, hi)
            return self.memo[key]
        if isinstance(v, Enum):
            return P(v.v)
        return self.fresh(name, FUZZY, None, None)

    def mkdiv(self, st, a, b):
        """a / b for b >= 1 known"""
        if a.is_const() and b.is_const() and b.const > 0 and a.const >= 0:
            return P(a.const // b.const)
        if b.is_const() and b.const == 1:
            return a
        # exact division of polynomials by a monomial factor
        q = self.exact_div(a, b)
        if q is not None:
            return q
        if b.is_const() and b.const > 0 and all(c % b.const == 0 for _, c in a.t):
            return Poly(tuple((m, c // b.const) for m, c in a.t))
        x, cons = derived("div", [a, b])
        fresh_cons = [c for c in cons if c not in st.cons]
        for c in fresh_cons:
            st.cons = st.cons | {c}
        if not b.is_const() and st.ent_ge(b - 2):
            st.cons = st.cons | {a - x * 2}
        if b.is_const() and b.const & (b.const - 1) == 0 and a in st.pow2 and st.ent_ge(a - b.const):
            st.cons = st.cons | {a - x * b, x * b - a, x - 1}
            st.pow2 = st.pow2 | {x}
        elif a in st.pow2 and st._is_pow2(b) and st.ent_ge(a - b):
            st.cons = st.cons | {a - x * b, x * b - a, x - 1}
            st.pow2 = st.pow2 | {x}
        return x

    def exact_div(self, a, b):
        if len(b.t) != 1 or b.is_const():
            return None
        m, c = b.t[0]
        out = {}
        for am, ac in a.t:
            r = list(am)
            for s in m:
                if s in r:
                    r.remove(s)
                else:
                    return None
            if ac % c:
                return None
            out[tuple(r)] = ac // c
        return mk(out)

    def binop(self, st, fr, op, a, b, ty):
        t = self.tys[ty]
        k = t["k"]
        if k == "float" or isinstance(a, FE) or isinstance(b, FE):
            bits = t.get("bits", 32)
            if not isinstance(a, FE):
                a = self.tofloat(a, bits)
            if not isinstance(b, FE):
                b = self.tofloat(b, bits)
            o = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem"}.get(op)
            if o:
                return fe(o, a, b, bits=a.bits)
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                if a.op == "const" and b.op == "const" and not isinstance(a.args[0], str) and not isinstance(b.args[0], str):
                    x, y = a.args[0], b.args[0]
                    return TRUE if {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op] else FALSE
                if op in ("Gt", "Ge"):
                    a, b, op = b, a, {"Gt": "Lt", "Ge": "Le"}[op]
                neg = False
                if op == "Ne":
                    op, neg = "Eq", True
                c = ("opq", ("fcmp", op, a, b), a.taint | b.taint)
                return BoolV(bnot(c) if neg else c)
            return self.opaque("fop")
        if k == "bool" or (isinstance(a, BoolV) and isinstance(b, BoolV)):
            if isinstance(a, Top):
                a = self.opaque(a.name, a.taint)
            if isinstance(b, Top):
                b = self.opaque(b.name, b.taint)
            if isinstance(a, BoolV) and isinstance(b, BoolV):
                if op == "BitAnd":
                    return self.simp(("and", a.c, b.c))
                if op == "BitOr":
                    return self.simp(("or", a.c, b.c))
                if op in ("BitXor", "Ne"):
                    return self.simp(("or", ("and", a.c, bnot(b.c)), ("and", bnot(a.c), b.c)))
                if op == "Eq":
                    return self.simp(("or", ("and", a.c, b.c), ("and", bnot(a.c), bnot(b.c))))
            return self.opaque("bop")
        if isinstance(a, (Slc, RawP, Ref)) or isinstance(b, (Slc, RawP, Ref)) or k in ("ptr", "fnptr"):
            if op in ("Eq", "Ne") and isinstance(a, RawP) and isinstance(b, RawP):
                eq = a.buf == b.buf and a.off == b.off
                if a.buf != b.buf or eq:
                    return TRUE if eq == (op == "Eq") else FALSE
            if op == "Offset" and isinstance(a, RawP):
                return RawP(a.buf, a.off + self.toint(b))
            return self.opaque("ptrcmp")
        if isinstance(a, StrV) or isinstance(b, StrV):
            return self.opaque("strcmp")
        a, b = self.toint(a), self.toint(b)
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            c = {"Lt": ("ge", b - a - 1), "Le": ("ge", b - a), "Gt": ("ge", a - b - 1), "Ge": ("ge", a - b),
                 "Eq": ("eq", a - b), "Ne": ("ne", a - b)}[op]
            if c[1].is_const():
                x = c[1].const
                return TRUE if {"ge": x >= 0, "eq": x == 0, "ne": x != 0}[c[0]] else FALSE
            # n & (n-1) == 0
            if c[0] in ("eq", "ne") and len(c[1].t) == 1 and len(c[1].t[0][0]) == 1 and abs(c[1].t[0][1]) == 1:
                d = SYMS[c[1].t[0][0][0]].defn
                if d and d[0] == "and":
                    x, y = d[1]
                    for p, q in ((x, y), (y, x)):
                        if (p - q).is_const() and (p - q).const == 1:
                            r = ("or", ("eq", p), ("pow2", p))
                            return BoolV(r if c[0] == "eq" else bnot(r))
                if d and d[0] == "popcnt":
                    pass
            # count_ones == 1
            if c[0] in ("eq", "ne") and len(c[1].t) == 2:
                for m, co in c[1].t:
                    if len(m) == 1 and abs(co) == 1:
                        d = SYMS[m[0]].defn
                        if d and d[0] == "popcnt" and c[1].const == -co:
                            return BoolV(("pow2", d[1][0]) if c[0] == "eq" else ("npow2", d[1][0]))
            return BoolV(c)
        lo, hi = self.int_range(t) if k in ("int", "char") else (None, None)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = a + b if op[0] == "A" else a - b if op[0] == "S" else a * b
            cs = []
            if op[0] == "S" and lo == 0:
                ov = ("ge", -r - 1)
            elif lo == 0:
                ov = ("ge", r - hi - 1)
            else:
                ov = ("or", ("ge", r - hi - 1), ("ge", P(lo) - r - 1))
            if r.is_const():
                ov = ("c", not (lo <= r.const <= hi))
            return tup(r, BoolV(ov))
        if op in ("Add", "AddUnchecked"):
            return a + b
        if op in ("Sub", "SubUnchecked"):
            return a - b
        if op in ("Mul", "MulUnchecked"):
            return a * b
        if op == "Div":
            if lo == 0 and st.ent_ge(b - 1):
                return self.mkdiv(st, a, b)
            return self.fresh("div", FUZZY, lo, hi)
        if op == "Rem":
            if lo == 0 and st.ent_ge(b - 1):
                return a - b * self.mkdiv(st, a, b)
            return self.fresh("rem", FUZZY, lo, hi)
        if op in ("Shl", "ShlUnchecked"):
            if b.is_const() and 0 <= b.const < 64:
                r = a.scale(1 << b.const)
                if hi is not None and st.ent_ge(P(hi) - r):
                    if st._is_pow2(a) and not r.is_const():
                        st.pow2 = st.pow2 | {r}
                    return r
                # bits may be shifted out: modular
                if r.is_const():
                    return P(r.const & hi)
                self.uid += 1
                x = self.fresh(f"({show(a)})<<{b.const}", FUZZY, lo, hi)
                return x
            if a.is_const() and a.const == 1:
                x, _ = derived("shl", [a, b])
                st.pow2 = st.pow2 | {x}
                st.cons = st.cons | {x - 1}
                return x
            return self.fresh("shl", FUZZY, lo, hi)
        if op in ("Shr", "ShrUnchecked"):
            if b.is_const() and 0 <= b.const < 64 and lo == 0:
                return self.mkdiv(st, a, P(1 << b.const))
            if lo == 0:
                x, _ = derived("shr", [a, b])
                st.cons = st.cons | {a - x}
                return x
            return self.fresh("shr", FUZZY, lo, hi)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if a.is_const() and b.is_const() and a.const >= 0 and b.const >= 0:
                return P({"BitAnd": a.const & b.const, "BitOr": a.const | b.const, "BitXor": a.const ^ b.const}[op])
            if op == "BitAnd" and lo == 0:
                for x, y in ((a, b), (b, a)):
                    if y.is_const() and y.const >= 0 and (y.const + 1) & y.const == 0:
                        m = y.const + 1
                        return x - self.mkdiv(st, x, P(m)).scale(m)
            if lo == 0:
                x, cs = derived({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op], [a, b])
                for c in cs:
                    st.cons = st.cons | {c}
                return x
            return self.fresh("bits", FUZZY, lo, hi)
        if op == "Cmp":
            return self.opaque("cmp")
        return self.fresh(op, FUZZY, lo, hi)

    def simp(self, c):
        if c[0] in ("and", "or"):
            a, b = c[1], c[2]
            tv = c[0] == "and"
            if a[0] == "c":
                return BoolV(b) if a[1] == tv else BoolV(("c", not tv))
            if b[0] == "c":
                return BoolV(a) if b[1] == tv else BoolV(("c", not tv))
            if a == b:
                return BoolV(a)
        return BoolV(c)

    def tofloat(self, v, bits=32):
        if isinstance(v, FE):
            return v
        if isinstance(v, Poly):
            return fe("int", v, bits=bits)
        if isinstance(v, Top):
            return fe("leaf", v.name, bits=bits, taint=v.taint)
        if isinstance(v, Lanes):
            return v.e[0]
        self.uid += 1
        return fe("any", self.uid, bits=bits, taint=taint_of(v))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv, line):
        """list of (state, value)"""
        k = rv[0]
        if k == "use":
            return [(st, self.operand(st, fr, rv[1]))]
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            n = self.const_len(n)
            self.nbuf += 1
            ety = rv[3] if len(rv) > 3 else 0
            st.bufs[self.nbuf] = Buf(ety, "alloc", ("fill", v), EMPTY, 0, length=n)
            return [(st, Arr(self.nbuf, n))]
        if k in ("ref", "rawptr"):
            loc = self.ploc(st, fr, rv[2])
            if loc[0][0] == "s":
                v = loc[0][1]
                if k == "rawptr" or rv[1] != "mut":
                    pass
                return [(st, v)]
            return [(st, Ref(loc[0], loc[1], rv[1] in ("mut", "Mut")))]
        if k == "cast":
            return [(st, self.cast(st, fr, rv[1], self.operand(st, fr, rv[2]), rv[3], rv[4]))]
        if k == "bin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            return [(st, self.binop(st, fr, rv[1], a, b, rv[4]))]
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Neg":
                if isinstance(a, Poly):
                    return [(st, -a)]
                a = self.tofloat(a)
                return [(st, fe("neg", a, bits=a.bits))]
            if rv[1] == "Not":
                if isinstance(a, BoolV):
                    return [(st, BoolV(bnot(a.c)))]
                if isinstance(a, Poly) and len(rv) > 3 and self.tys[rv[3]]["k"] == "int" and not self.tys[rv[3]]["signed"]:
                    return [(st, P(self.int_range(self.tys[rv[3]])[1]) - a)]
                return [(st, self.opaque("not") if not isinstance(a, Poly) else self.fresh("not", FUZZY))]
            if rv[1] == "PtrMetadata":
                if isinstance(a, Slc):
                    return [(st, a.len)]
                return [(st, self.fresh("meta", FUZZY))]
            return [(st, self.fresh("un", FUZZY))]
        if k == "discr":
            loc = self.ploc(st, fr, rv[1])
            v = self.load(st, loc)
            if isinstance(v, Enum):
                return [(st, P(self.disc(rv[2], v.v)))]
            if isinstance(v, Top):
                t = self.tys[rv[2]]
                vs = t.get("variants")
                if vs:
                    out = []
                    for i, var in enumerate(vs):
                        s2 = st.copy()
                        fs = tuple(self.fresh_val(s2, f[1], f"{v.name}.{f[0]}", v.taint, v.kind if v.kind in (INPUT, HIST) else FUZZY)
                                   for f in var["fields"])
                        self.store(s2, loc, Enum(t["path"], i, fs))
                        s2.eff = st.eff
                        out.append((s2, P(int(var["disc"]))))
                    return out
            return [(st, self.fresh("discr", FUZZY))]
        if k == "agg":
            kind = rv[1]
            ops = [self.operand(st, fr, o) for o in rv[2]]
            return [(st, self.aggregate(st, kind, ops))]
        return [(st, Top(0, "rv", EMPTY, "fuzzy"))]

    def disc(self, ty, v):
        t = self.tys[ty]
        if t.get("variants"):
            return int(t["variants"][v]["disc"])
        return v

    def aggregate(self, st, kind, ops):
        k = kind[0]
        if k == "tuple":
            return Struct("tuple", tuple(ops))
        if k == "array":
            n = P(len(ops))
            self.nbuf += 1
            st.bufs[self.nbuf] = Buf(kind[1], "alloc", ("leaf", f"arr@{self.nbuf}"), EMPTY, 0,
                                     tuple(("e", P(i), v) for i, v in enumerate(ops)), length=n)
            return Arr(self.nbuf, n)
        if k == "adt":
            t = self.tys[kind[1]]
            if t.get("adt") == "enum":
                return Enum(t["path"], kind[2], tuple(ops))
            for f, v in zip(t["variants"][0]["fields"], ops):
                if isinstance(v, MapV) and not v.ident:
                    self.mapid[v.name] = f"{t['path']}.{f[0]}"
            return Struct(t["path"], tuple(ops))
        if k == "closure":
            t = self.tys[kind[1]]
            return Struct(("closure", t.get("inst") or t["path"]), tuple(ops))
        if k == "rawptr" and len(ops) == 2:
            a, n = ops
            if isinstance(a, RawP) and isinstance(n, Poly):
                return Slc(a.buf, a.off, n, True)
        return Struct("agg", tuple(ops))

    def cast(self, st, fr, kind, v, fty, tty):
        ft, tt = self.tys[fty], self.tys[tty]
        if kind == "IntToInt":
            if ft["k"] == "bool":
                if isinstance(v, BoolV) and v.c[0] == "c":
                    return P(int(v.c[1]))
                return self.fresh("boolint", INPUT, 0, 1)
            v = self.toint(v)
            lo, hi = self.int_range(tt)
            if st.ent_ge(v - lo) and st.ent_ge(P(hi) - v):
                return v
            return self.fresh("trunc", FUZZY, lo, hi)
        if kind == "IntToFloat":
            iv = self.toint(v)
            h = hist_syms(iv)
            return fe("int", iv, bits=tt["bits"], taint=frozenset("hist:length of " + SYMS[x].name for x in h) if h else EMPTY)
        if kind == "FloatToInt":
            lo, hi = self.int_range(tt)
            v = self.tofloat(v)
            key = ("f2i", v, tty)
            if key not in self.memo:
                self.memo[key] = self.fresh(f"int({fshow(v, 3)})", FUZZY, lo, hi)
                self.memo[("f2it", self.memo[key])] = v.taint
            return self.memo[key]
        if kind == "FloatToFloat":
            v = self.tofloat(v)
            return fe("cast", v, bits=tt["bits"])
        if kind.startswith("PointerCoercion") or "Unsize" in kind:
            if isinstance(v, Ref) and tt["k"] in ("ref", "ptr") and self.tys[tt["e"]]["k"] == "slice":
                a = self.load(st, (v.base, v.path))
                if isinstance(a, Top):
                    a2 = self.expand(st, a)
                    if a2 is not a:
                        self.store(st, (v.base, v.path), a2)
                    a = a2
                if isinstance(a, Arr):
                    return Slc(a.buf, ZERO, a.len, v.mut)
            if isinstance(v, BoxC) and tt["k"] == "adt":
                a = st.cells.get(v.cell)
                if isinstance(a, Arr):
                    return BoxS(Slc(a.buf, ZERO, a.len))
            return v
        if kind in ("PtrToPtr", "Transmute", "Subtype"):
            if tt["k"] == "int" and not isinstance(v, Poly):
                if isinstance(v, FE):
                    return self.fresh("bits", FUZZY, *self.int_range(tt))
                return self.fresh("addr", FUZZY)
            if tt["k"] == "float" and isinstance(v, Poly):
                self.uid += 1
                return fe("any", self.uid, bits=tt["bits"])
            if isinstance(v, Slc) and tt["k"] == "ptr" and self.tys[tt["e"]]["k"] not in ("slice", "str"):
                return RawP(v.buf, v.off)
            return v
        if kind == "PointerExposeProvenance":
            return self.fresh("addr", FUZZY)
        return v

    # ------------------------------------------------------------ obligations
    def oblige(self, st, kind, fr, line, cond, desc, ordinal=None):
        """check cond on st; returns the states in which it holds"""
        if cond == ("c", True):
            return [st]
        key = (fr.fn.path, kind, desc if ordinal is None else ordinal)
        if not self.mute:
            if entails(st, cond):
                self.log.append((key, kind, fr, line, desc, "ok", None))
                return [st]
            self.log.append((key, kind, fr, line, desc, "fail", (st.copy(), cond, tuple(self.stack))))
        return assume(st, cond)

    def reach(self, st, kind, fr, line, desc):
        """st reaches something that must not be reached"""
        if not self.mute:
            self.log.append(((fr.fn.path, kind, desc), kind, fr, line, desc, "fail", (st.copy(), ("c", False), tuple(self.stack))))

    def settle(self):
        from . import witness
        for key, kind, fr, line, desc, res, data in self.log:
            o = self.obls.get(key)
            if o is None:
                o = self.obls[key] = Obl(key, kind, fr.fn, line, desc)
            if res == "ok":
                o.proved += 1
                continue
            if o.viol:
                continue
            st, cond, stack = data
            done = False
            status = "undec"
            fls = assume(st, bnot(cond))
            if not fls:
                o.proved += 1
                continue
            for s2 in fls:
                seeds = cond_polys(cond)
                if seeds:
                    c, n, p, q = witness.connected(s2, seeds)
                else:
                    c, n, p, q = list(s2.cons), list(s2.nes), list(s2.pow2), list(s2.npow2)
                big = kind in ("overflow",)
                r, model = witness.find(c, n, p, q, big=big, note=s2.note) if exact(s2) else ("fuzzy", None)
                if r == "sat":
                    status, o.model = "viol", model
                    o.trail = [f"{a}" for a in stack]
                    break
            if os.environ.get("KAI_DEBUG") and status == "undec":
                print("UNDEC", key, line, [f.split("|")[0] for f in stack][-3:])
                for s2 in fls[:1]:
                    c, n, p, q = witness.connected(s2, cond_polys(cond))
                    for x in c:
                        print("    ", show(x), ">= 0")
                    for x in n:
                        print("    ", show(x), "!= 0")
                    for x in p:
                        print("    pow2", show(x))
            if status == "viol":
                o.viol += 1
            else:
                o.undec += 1
        self.log = []

    # ------------------------------------------------------------ execution
    def exec_fn(self, fn, args, st, site=None):
        """inline execution; returns list of (state, value)"""
        if len(self.stack) > DEPTH or fn.key in self.stack:
            raise Giveup(f"recursion {fn.key}")
        fn.prepare()
        self.visited.add(fn.key)
        if fn.d.get("closure") and len(args) == 2 and isinstance(args[1], Struct) and args[1].tag == "tuple":
            t2 = self.tys[fn.locals[2][0]] if fn.argc >= 2 else None
            if fn.argc != 2 or t2["k"] != "tuple" or len(args[1].f) == 1 != len(t2["f"]):
                args = [args[0]] + list(args[1].f)
        fr = Frame(fn)
        self.stack.append(fn.key)
        try:
            s = st.copy()
            for i, a in enumerate(args):
                s.cells[(fr.id, i + 1)] = a
            backs, exits = self.region(fn, fr, {0: [s]}, set(fn.rpo), None)
            outs = []
            for s2 in exits.get("ret", []):
                v = s2.cells.get((fr.id, 0), UNIT)
                for c in [c for c in s2.cells if c[0] == fr.id]:
                    del s2.cells[c]
                outs.append((s2, v))
            if len(outs) > CAP:
                outs = self.merge_rets(outs)
            return outs
        finally:
            self.stack.pop()

    def merge_rets(self, outs):
        key = ("c", ("ret", 0))
        sts = []
        for s, v in outs:
            s.cells[("ret", 0)] = v
            sts.append(s)
        m = self.merge(sts, CAP)
        res = []
        for s in m:
            v = s.cells.pop(("ret", 0))
            res.append((s, v))
        return res

    def region(self, fn, fr, start, blocks, header):
        """runs a set of blocks; returns (back-edge states, exits {block|'ret': states})"""
        pend = {b: list(v) for b, v in start.items()}
        backs, exits = [], {}
        order = sorted(blocks, key=lambda b: fn.rpo_ix[b])
        done = set()
        for b in order:
            sts = pend.pop(b, None)
            if not sts:
                continue
            done.add(b)
            if b in fn.loops and b != header:
                outs = self.cfg_loop(fn, fr, b, sts)
                for tgt, ss in outs.items():
                    if tgt == "ret":
                        exits.setdefault("ret", []).extend(ss)
                    elif tgt == header:
                        backs.extend(ss)
                    elif tgt in blocks:
                        pend.setdefault(tgt, []).extend(ss)
                    else:
                        exits.setdefault(tgt, []).extend(ss)
                continue
            if len(sts) > CAP:
                for s in sts:
                    self.prune(fn, fr, b, s)
                sts = self.merge(sts, CAP)
            for s in sts:
                for tgt, s2 in self.block(fn, fr, b, s):
                    if tgt == "ret":
                        exits.setdefault("ret", []).append(s2)
                    elif tgt == header:
                        backs.append(s2)
                    elif tgt in blocks:
                        pend.setdefault(tgt, []).append(s2)
                    else:
                        exits.setdefault(tgt, []).append(s2)
        return backs, exits

    def prune(self, fn, fr, b, s):
        live = fn.live_in[b]
        for c in [c for c in s.cells if c[0] == fr.id and c[1] not in live]:
            del s.cells[c]

    def block(self, fn, fr, b, st):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Giveup("step limit")
        if self.deadline and self.steps % 64 == 0:
            import time
            if time.time() > self.deadline:
                raise Giveup("time limit")
        st = st.copy()
        states = [st]
        blk = fn.blocks[b]
        raws = self.raw_places(fn, b)
        for si, stm in enumerate(blk["s"]):
            k = stm[0]
            if k == "=":
                for pl in raws.get(si, ()):
                    states = [s2 for s in states for s2 in self.raw_deref(s, fn, fr, b, si, pl, stm[3])]
                nxt = []
                for s in states:
                    for s2, v in self.rvalue(s, fr, stm[2], stm[3]):
                        self.store(s2, self.ploc(s2, fr, stm[1]), v)
                        nxt.append(s2)
                states = nxt
            elif k == "setdiscr":
                pass
            elif k == "dead":
                for s in states:
                    s.cells.pop((fr.id, stm[1]), None)
            elif k == "live":
                for s in states:
                    s.cells.pop((fr.id, stm[1]), None)
            elif k == "intrinsic":
                pass
        out = []
        for s in states:
            out += self.term(fn, fr, b, blk["t"], s)
        return out

    def raw_places(self, fn, b):
        """places of this block that go through a raw pointer, by statement"""
        k = (fn.key, b)
        r = self.rawp.get(k)
        if r is None:
            r = {}

            def rec(x, acc):
                if isinstance(x, list):
                    if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and x[1] and isinstance(x[1][0], list) and x[1][0] == ["deref"]:
                        if self.tys[fn.locals[x[0]][0]]["k"] == "ptr":
                            acc.append(x)
                            return
                    for y in x:
                        rec(y, acc)
            for i, s in enumerate(fn.blocks[b]["s"]):
                if s[0] == "=":
                    acc = []
                    rec(s[1:3], acc)
                    if acc:
                        r[i] = acc
            self.rawp[k] = r
        return r

    def raw_deref(self, st, fn, fr, b, si, pl, line):
        v = st.cells.get((fr.id, pl[0]))
        bf = st.bufs.get(v.buf) if isinstance(v, RawP) else None
        if bf is None:
            return [st]
        L = bf.length
        if L is None:
            for c, x in st.cells.items():
                if isinstance(x, (Vec, Arr)) and x.buf == v.buf:
                    L = x.len
        if L is None:
            return [st]
        out = []
        for s in self.oblige(st, "rawbounds", fr, line, ("ge", v.off), "raw pointer does not precede its buffer", ordinal=("deref", b, si, pl[0], 0)):
            out += self.oblige(s, "rawbounds", fr, line, ("ge", L - v.off - 1), f"raw pointer access at {show(v.off)} within {show(L)}",
                               ordinal=("deref", b, si, pl[0], 1))
        return out

    def term(self, fn, fr, b, t, st):
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [("ret", st)]
        if k in ("unreachable", "resume"):
            return []
        if k == "drop":
            return [(t[2], st)]
        if k == "switch":
            v = self.operand(st, fr, t[1])
            out = []
            if isinstance(v, BoolV):
                for val, tgt in t[2]:
                    c = v.c if int(val) else bnot(v.c)
                    for s in assume(st, c):
                        out.append((tgt, s))
                vals = {int(x[0]) for x in t[2]}
                if vals != {0, 1}:
                    c = bnot(v.c) if 1 in vals else v.c
                    for s in assume(st, c):
                        out.append((t[3], s))
                return out
            v = self.toint(v)
            if v.is_const():
                for val, tgt in t[2]:
                    if int(val) == v.const or (v.const < 0 and int(val) - (1 << 64) == v.const):
                        return [(tgt, st)]
                return [(t[3], st)]
            rest = [st]
            for val, tgt in t[2]:
                c = ("eq", v - int(val))
                for s in assume(st, c):
                    out.append((tgt, s))
                nr = []
                for s in rest:
                    nr += assume(s, ("ne", v - int(val)))
                rest = nr
            for s in rest:
                out.append((t[3], s))
            return out
        if k == "assert":
            v = self.operand(st, fr, t[1])
            if not isinstance(v, BoolV):
                return [(t[4], st)]
            c = v.c if t[2] else bnot(v.c)
            msg = t[3]
            kind = {"bounds": "bounds", "overflow": "overflow", "negoverflow": "overflow", "div0": "div0", "rem0": "div0"}.get(msg[0], "assert")
            desc = self.describe(fn, fr, st, msg, b)
            return [(t[4], s) for s in self.oblige(st, kind, fr, self.line_of(fn, b), c, desc, ordinal=(msg[0], b))]
        if k == "call":
            outs = self.call(fn, fr, b, t, st)
            res = []
            for s, v in outs:
                if t[4] is None:
                    continue
                self.store(s, self.ploc(s, fr, t[3]), v)
                res.append((t[4], s))
            return res
        raise Giveup("terminator " + k)

    def line_of(self, fn, b):
        return fn.blocks[b].get("l")

    def describe(self, fn, fr, st, msg, b):
        try:
            if msg[0] == "bounds":
                ln = self.operand(st, fr, msg[1])
                ix = self.operand(st, fr, msg[2])
                return f"index {show(self.toint(ix))} < length {show(self.toint(ln))}"
            if msg[0] == "overflow":
                a = self.operand(st, fr, msg[2])
                c = self.operand(st, fr, msg[3])
                return f"{msg[1]}({show(self.toint(a))}, {show(self.toint(c))}) does not overflow"
        except Exception:
            pass
        return msg[0]

    # ------------------------------------------------------------ calls
    def call(self, fn, fr, b, t, st):
        f = t[1]
        args = [self.operand(st, fr, o) for o in t[2]]
        line = t[6] if len(t) > 6 else 0
        dstty = t[7] if len(t) > 7 else None
        info = None
        if f[0] == "const" and "fn" in f[1]:
            info = f[1]
        else:
            v = self.operand(st, fr, f)
            if isinstance(v, FnV) and isinstance(v.info, dict):
                info = v.info
                info = dict(info, fn=info.get("fn") or info.get("path"))
        cs = CallSite(self, fn, fr, b, line, dstty, info)
        if info is None:
            return self.unknown_call(st, cs, args, "indirect")
        return self.invoke(st, cs, info, args)

    def invoke(self, st, cs, info, args):
        path = info["fn"]
        inst = info.get("inst")
        if inst:
            ipath = inst.split("|")[0]
        else:
            ipath = path
        self.calls.add((cs.fn.key, ipath))
        h = self.hooks.get(ipath) or self.hooks.get(path)
        if h:
            h(self, st, cs, args)
        c = self.contracts.get(ipath) or (self.contracts.get(path) if not inst or inst not in self.prog.fns else None)
        if c and not (self.stack and inst == self.stack[0] and len(self.stack) == 0):
            r = c(self, st, cs, info, args)
            if r is not None:
                return r
        if inst and inst in self.prog.fns:
            return self.exec_fn(self.prog.fns[inst], args, st)
        m = self.lib.MODELS.get(path) or self.lib.MODELS.get(ipath)
        if m:
            r = m(self, st, cs, info, args)
            if r is not None:
                return r
        return self.unknown_call(st, cs, args, ipath)

    def unknown_call(self, st, cs, args, name):
        self.unknown[name] = self.unknown.get(name, 0) + 1
        t = EMPTY
        for a in args:
            t |= taint_of(a, st)
            if isinstance(a, Slc) and a.buf in st.bufs:
                t |= self.buf_taint(st, st.bufs[a.buf])
        for a in args:
            self.havoc_arg(st, a, t)
        if cs.dstty is None:
            return [(st, UNIT)]
        if self.tys[cs.dstty]["k"] == "never":
            return []
        self.uid += 1
        return [(st, self.fresh_val(st, cs.dstty, f"{name.split('::')[-1]}#{self.uid}", t, FUZZY))]

    def havoc_arg(self, st, a, t):
        if isinstance(a, Slc) and a.mut:
            self.havoc_slice(st, a, t, "call")
        elif isinstance(a, Ref) and a.mut:
            v = self.load(st, (a.base, a.path))
            if isinstance(v, Vec):
                n = self.fresh("len", FUZZY, 0, ISIZE_MAX)
                b = st.bufs[v.buf]
                nb = self.new_buf(st, b.ety, b.root, taint=t | self.buf_taint(st, b), length=n)
                st.bufs[nb] = st.bufs[nb]._replace(ver=("havoc", nb))
                self.store(st, (a.base, a.path), Vec(nb, n))
            elif isinstance(v, FE):
                self.uid += 1
                self.store(st, (a.base, a.path), fe("any", self.uid, bits=v.bits, taint=v.taint | t))
            elif isinstance(v, Poly):
                self.store(st, (a.base, a.path), self.fresh("havoc", FUZZY, None, None))

    # ------------------------------------------------------------ summary helpers
    def event(self, st, cs, info, args):
        """record a call to a summarised function on this path"""
        d = []
        for a in args:
            s = self.lib.as_slice(self, st, a) if isinstance(a, (Slc, Ref, Vec, Arr, BoxS)) else None
            d.append(("slc", s.buf, s.off, s.len) if s is not None else ("val", a if isinstance(a, (Poly, FE)) else None))
        if not self.mute:
            for k in d:
                if k[0] == "slc":
                    h = hist_syms(k[3])
                    b = st.bufs.get(k[1])
                    if h and b is not None:
                        self.histcalls.append((cs.info["fn"].split("|")[0], cs.fn.path, cs.line, sorted(SYMS[x].name for x in h), sorted(map(str, self.buf_taint(st, b)))))
        st.evs = st.evs + (((info.get("inst") or info["fn"]).split("|")[0], tuple(d), cs.fn.path, cs.line),)

    def range_of(self, st, s):
        b = st.bufs.get(s.buf)
        if b is None:
            self.rd(st, s.buf, s.off)
            b = st.bufs[s.buf]
        return self.range_taint(st, b, s.off, s.len)

    def npot(self, st, p):
        """smallest power of two >= p (p >= 1 not required)"""
        if p.is_const():
            return P(npot(p.const))
        if st._is_pow2(p):
            return p
        x, cons = derived("npot", [p])
        for c in cons:
            st.cons = st.cons | {c}
        st.pow2 = st.pow2 | {x}
        if st.ent_ge(p - 1):
            st.cons = st.cons | {p.scale(2) - x - (0 if not st.ent_ge(p - 2) else 1)}
        return x

    def call_closure(self, st, cs, f, args):
        """call a closure / fn item / fn pointer value with untupled args"""
        if isinstance(f, Ref):
            v = self.load(st, (f.base, f.path))
            if isinstance(v, (Struct, FnV, Ref)):
                if isinstance(v, Struct) and isinstance(v.tag, tuple) and v.tag[0] == "closure":
                    return self._closure(st, cs, v, f, args)
                return self.call_closure(st, cs, v, args)
            return self.unknown_call(st, cs, args, "closure?")
        if isinstance(f, Struct) and isinstance(f.tag, tuple) and f.tag[0] == "closure":
            c = self.new_cell(st, f)
            return self._closure(st, cs, f, Ref(("c", c), (), True), args)
        if isinstance(f, FnV):
            info = f.info if isinstance(f.info, dict) else {"fn": f.key, "inst": f.key}
            info = dict(info, fn=info.get("fn") or info.get("path"))
            return self.invoke(st, cs, info, list(args))
        if isinstance(f, BoxC):
            return self.call_closure(st, cs, Ref(("c", f.cell), ()), args)
        return self.unknown_call(st, cs, args, "closure?")

    def _closure(self, st, cs, v, ref, args):
        fn = self.prog.fns.get(v.tag[1])
        if fn is None:
            return self.unknown_call(st, cs, args, "closure " + str(v.tag[1]))
        t1 = self.tys[fn.locals[1][0]]
        selfarg = ref if t1["k"] == "ref" else v
        return self.exec_fn(fn, [selfarg] + list(args), st)

    # ------------------------------------------------------------ joins
    def shape(self, v):
        if isinstance(v, (Poly, FE, BoolV)):
            return type(v).__name__
        if isinstance(v, Struct):
            return (str(v.tag), tuple(self.shape(x) for x in v.f))
        if isinstance(v, Enum):
            return (v.tag, v.v, tuple(self.shape(x) for x in v.f))
        if isinstance(v, Slc):
            return ("slc", v.buf)
        if isinstance(v, BoxS):
            return ("boxs", v.s.buf)
        if isinstance(v, Ref):
            return ("ref", v.base if v.base[0] == "c" else v.base[:2], v.path)
        if isinstance(v, RawP):
            return ("raw", v.buf)
        if isinstance(v, (Vec, Arr)):
            return ("vec",)
        if isinstance(v, Iter):
            return ("it", self.seqshape(v.seq))
        if isinstance(v, (BoxC,)):
            return ("boxc", v.cell)
        return type(v).__name__

    def seqshape(self, s):
        if isinstance(s, tuple) and not hasattr(s, "_fields"):
            return tuple(self.seqshape(x) for x in s)
        return s

    def state_shape(self, st):
        return tuple(sorted(((repr(c), self.shape(v)) for c, v in st.cells.items()), key=lambda x: x[0]))

    def merge(self, sts, cap):
        """reduce the number of states by joining those of equal shape"""
        # exact duplicates first
        uniq, seen = [], set()
        for s in sts:
            k = (frozenset((repr(c), v) for c, v in s.cells.items()), s.cons, s.nes, s.eff, tuple(sorted(s.bufs.items(), key=lambda x: x[0])), s.opq)
            try:
                if k in seen:
                    continue
                seen.add(k)
            except TypeError:
                pass
            uniq.append(s)
        sts = uniq
        if len(sts) <= cap:
            return sts
        keep = []
        if cap == CAP:
            # states about to return an error keep their own path condition
            for s in sts:
                if any(has_err(v) for c, v in s.cells.items() if isinstance(v, Enum)):
                    keep.append(s)
            if len(keep) > 48:
                keep = []
            if keep:
                ids = {id(s) for s in keep}
                sts = [s for s in sts if id(s) not in ids]
                if len(sts) <= cap:
                    return sts + keep
        groups = {}
        for s in sts:
            groups.setdefault((self.state_shape(s), s.eff), []).append(s)
        out = []
        for g in groups.values():
            out.append(g[0] if len(g) == 1 else self.join(g))
        return out + keep

    def join(self, sts):
        a = sts[0]
        r = a.copy()
        self.uid += 1
        W = Widen(self, r, sts, ("j", self.uid))
        for c in list(r.cells):
            vs = [s.cells.get(c) for s in sts]
            if any(v is None for v in vs):
                del r.cells[c]
                continue
            r.cells[c] = W.val((c,), vs)
        W.bufs()
        r.cons = frozenset(W.cons)
        common = None
        for s in sts:
            common = s.cons if common is None else common & s.cons
        keep = set(common)
        for s in sts:
            for c in s.cons - common:
                if len(c.t) <= 4 and c not in keep and all(c in o.cons or o.infeasible(-c - 1) for o in sts):
                    keep.add(c)
        r.cons = frozenset(keep | W.cons)
        r.nes = frozenset.intersection(*[s.nes for s in sts])
        r.pow2 = frozenset.intersection(*[s.pow2 for s in sts]) | W.pow2
        r.npow2 = frozenset.intersection(*[s.npow2 for s in sts])
        r.opq = frozenset.intersection(*[s.opq for s in sts])
        r.eff = frozenset.union(*[s.eff for s in sts])
        r.note = join_notes(sts)
        if "lossy" not in r.note and not self.exact_join(r, sts):
            r.note = r.note | {"lossy"}
        if any(s.maps != a.maps for s in sts):
            r.maps = tuple(x for x in a.maps if all(x in s.maps for s in sts))
        if any(s.evs != a.evs for s in sts):
            r.evs = a.evs if all(s.evs == a.evs for s in sts) else self.join_evs(sts)
        return r

    def exact_join(self, r, sts):
        """does the joined state describe no more executions than its parts (as far as constraints on inputs go)?"""
        todo = [r]
        for s in sts:
            lost = [("ge", c) for c in s.cons - r.cons] + [("ne", c) for c in s.nes - r.nes] + [("pow2", c) for c in s.pow2 - r.pow2] \
                + [("npow2", c) for c in s.npow2 - r.npow2]
            lost = [c for c in lost if not entails(r, c)]
            if not lost:
                return True
            nxt = []
            for t in todo:
                for c in lost:
                    nxt += assume(t, bnot(c))
                if len(nxt) > 24:
                    return False
            todo = nxt
            if not todo:
                return True
        return False

    def join_evs(self, sts):
        n = 0
        m = min(len(s.evs) for s in sts)
        while n < m and all(s.evs[n] == sts[0].evs[n] for s in sts):
            n += 1
        rest = frozenset(x for s in sts for x in s.evs[n:])
        return sts[0].evs[:n] + (("alt", rest),)

    # ------------------------------------------------------------ loops
    def cfg_loop(self, fn, fr, h, sts):
        body = fn.loops[h]
        for s in sts:
            self.prune(fn, fr, h, s)
        if len(sts) > 2:
            sts = self.merge(sts, 2)
        out = {}
        for s in sts:
            def run(hs):
                return self.region(fn, fr, {h: hs}, body, h)

            def prep(s2):
                self.prune(fn, fr, h, s2)
            ex = self.loop(run, s, prep, (fn.key, h), self.line_of(fn, h))
            for k, v in ex.items():
                out.setdefault(k, []).extend(v)
        return out

    def element_facts(self, L, backs, exits):
        """what every completed iteration established about the element it looked at"""
        t = list(L.t.syms())[0]
        mine = {}
        for x, (base, ver, idx, root, v) in self.elsyms.items():
            if t in idx.syms():
                mine.setdefault((base, ver, idx, root), (set(), v))[0].add(x)
        # element symbols that depend on this iteration, including those of nested sequences first seen in the body
        late = {x for x, e in self.elsyms.items() if x > t}
        notes = set()
        if not backs or not late:
            return
        for b in backs:
            for n in b.note - L.st.note:
                if n[0] == "elf":
                    notes.add(n)
                elif n[0] == "fa":
                    notes.add(("elf", ELROOT[min(elem_syms(n[5]))]))
        allc = []
        for b in backs:
            allc.append({("ge", c) for c in b.cons if c.syms() & late} | {("ne", c) for c in b.nes if c.syms() & late}
                        | {("pow2", c) for c in b.pow2 if c.syms() & late} | {("npow2", c) for c in b.npow2 if c.syms() & late})
        common = set.intersection(*allc)
        bad = set().union(*allc) - common
        rest = set(common)
        for (base, ver, idx, root), (xs, v) in mine.items():
            off = idx - L.t
            if t in off.syms():
                continue
            conds = [c for c in common if c[1].syms() & xs and all(y in xs or y < t for y in c[1].syms())]
            if conds:
                notes.add(("fa", base, ver, off, tuple(sorted(conds, key=repr)), v, L.t))
                rest -= set(conds)
        if (rest | bad) and self.total_alts(L.st, backs, late):
            rest = bad = set()
        for c in rest | bad:
            for x in c[1].syms() & late:
                notes.add(("elf", self.elsyms[x][3]))
                if SYMS[x].kind == FUZZY:
                    notes.add("lossy")
        if notes:
            for k, lst in exits.items():
                for e in lst:
                    s = e[0] if isinstance(e, tuple) else e
                    s.note = s.note | notes

    def total_alts(self, st, backs, late):
        """do the alternatives allow every value of the elements, so that completing an iteration says nothing about them?"""
        alts, full = [], []
        for b in backs:
            full.append({("ge", c) for c in b.cons - st.cons} | {("ne", c) for c in b.nes - st.nes}
                        | {("pow2", c) for c in b.pow2 - st.pow2} | {("npow2", c) for c in b.npow2 - st.npow2})
        base = [c for c in set.intersection(*full) if not c[1].syms() & late and len(c[1].t) <= 6]
        lo = min(late)
        for cs in full:
            cs = set(cs) - set(base)
            for _ in range(6):
                odd = [(c, y) for c in cs for y in c[1].syms() if y >= lo and y not in late and SYMS[y].defn is None]
                if not odd:
                    break
                for c, y in odd:
                    k = dict(c[1].t).get((y,), 0)
                    if c[0] == "ge" and k in (1, -1) and ("ge", P(0) - c[1]) in cs and sum(y in m for m, _ in c[1].t) == 1:
                        e = S(y) - c[1].scale(k)
                        cs -= {c, ("ge", P(0) - c[1])}
                        cs = {(o, q.subst({y: e})) for o, q in cs}
                        break
                else:
                    return False
            alts.append(cs)
        for c in base:
            r = assume(st, c)
            if len(r) != 1:
                return False
            st = r[0]
        todo = [st]
        for cs in alts:
            todo = [s for t in todo for c in cs for s in assume(t, bnot(c))]
            if len(todo) > 24:
                return False
            if not todo:
                return True
        return False

    def after_one(self, L, backs, exits):
        """facts about loop-invariant quantities that hold once an iteration has completed"""
        t = list(L.t.syms())[0]
        if not backs:
            return
        def older(b, ps):
            """the facts in terms of loop-invariant quantities, through the equalities of that iteration"""
            out = set()
            for p in ps:
                if all(y < t for y in p.syms()):
                    out.add(p)
                elif len(p.t) == 1:
                    for c in b.cons:
                        if P(0) - c in b.cons:
                            out |= {q for q in (p - c, p + c) if len(q.t) <= 2 and all(y < t for y in q.syms())}
            return out
        for a in ("cons", "nes", "pow2", "npow2"):
            if a in ("cons", "nes"):
                common = frozenset.intersection(*[getattr(b, a) for b in backs]) - getattr(L.st, a)
            else:
                common = set.intersection(*[older(b, getattr(b, a)) for b in backs]) - getattr(L.st, a)
            op = {"cons": "ge", "nes": "ne"}.get(a, a)
            new = [(op, c) for c in common if len(c.t) <= 4 and all(y < t for y in c.syms())]
            new = [c for c in new if not entails(L.st, c)]
            if not new or len(new) > 4:
                continue
            for k, lst in exits.items():
                out = []
                for e in lst:
                    s = e[0] if isinstance(e, tuple) else e
                    zero = assume(s, ("eq", L.t))
                    more = assume(s, ("ge", L.t - 1))
                    for c in new:
                        more = [y for x in more for y in assume(x, c)]
                    if len(more) > 1:
                        more = assume(s, ("ge", L.t - 1))
                    for x in zero + more:
                        out.append((x,) + tuple(e[1:]) if isinstance(e, tuple) else x)
                exits[k] = out

    def loop(self, run, st, prep, key, line, nosplit=False):
        """generic loop analysis: run(header states) -> (backs, exits)"""
        mark = len(self.log)
        self.mute += 1
        nl = len(self.loops)
        try:
            backs, exits = run([st.copy()])
        finally:
            self.mute -= 1
        del self.loops[nl:]
        if not backs:
            del self.log[mark:]
            backs, exits = run([st.copy()])
            return exits
        for b in backs:
            prep(b)
        self.uid += 1
        L = Loop(self, st, self.uid, key, line)
        L.nosplit = nosplit
        L.learn(backs)
        for it in range(14):
            del self.log[mark:]
            del self.loops[nl:]
            heads = L.heads()
            # keep obligations of this run only if it turns out stable
            backs, exits = run([h.copy() for h in heads])
            for b in backs:
                prep(b)
            if L.stable(backs):
                break
        else:
            del self.log[mark:]
            del self.loops[nl:]
            raise Giveup(f"loop {key} did not stabilise")
        self.element_facts(L, backs, exits)
        self.after_one(L, backs, exits)
        if not self.mute:
            self.loops.append(LoopInfo(key=key, line=line, loop=L, backs=backs, exits=exits, stack=tuple(self.stack)))
        if L.split is not None:
            # entry executed zero iterations
            for z in L.split:
                self.mute += 0
                b0, e0 = run([z.copy()])
                if b0:
                    # it can still iterate: redo without splitting the entry
                    del self.log[mark:]
                    del self.loops[nl:]
                    if nosplit:
                        raise Giveup(f"loop {key} split")
                    return self.loop(run, st, prep, key, line, True)
                for k, v in e0.items():
                    exits.setdefault(k, []).extend(v)
        return exits


def join_notes(sts):
    u = frozenset.union(*[s.note for s in sts])
    c = frozenset.intersection(*[s.note for s in sts])
    lost = {n for n in u - c if n[0] == "fa"}
    return (u - lost) | {("elf", ELROOT[min(elem_syms(n[5]))]) for n in lost}


def elem_syms(v):
    if isinstance(v, Poly):
        return v.syms()
    if isinstance(v, (Vec, Arr, Slc)):
        return v.len.syms()
    if isinstance(v, (Struct, Enum)):
        r = set()
        for x in v.f:
            r |= elem_syms(x)
        return r
    return set()


def pair(a, b, env):
    if isinstance(a, Poly) and isinstance(b, Poly):
        if len(a.t) == 1 and len(a.t[0][0]) == 1 and a.t[0][1] == 1:
            env[a.t[0][0][0]] = b
    elif type(a) is type(b) and isinstance(a, (Vec, Arr, Slc)):
        pair(a.len, b.len, env)
    elif type(a) is type(b) and isinstance(a, (Struct, Enum)):
        for x, y in zip(a.f, b.f):
            pair(x, y, env)


def has_err(v):
    return isinstance(v, Enum) and (v.tag.endswith("FftError") or any(has_err(x) for x in v.f if isinstance(x, Enum)))


def cond_polys(c):
    if c[0] in ("ge", "eq", "ne", "pow2", "npow2"):
        return [c[1]]
    if c[0] in ("and", "or"):
        return cond_polys(c[1]) + cond_polys(c[2])
    return []


class CallSite:
    __slots__ = ("eng", "fn", "fr", "b", "line", "dstty", "info")

    def __init__(self, eng, fn, fr, b, line, dstty, info):
        self.eng, self.fn, self.fr, self.b, self.line, self.dstty, self.info = eng, fn, fr, b, line, dstty, info


class Widen:
    """joins the values of several states at equal paths"""

    def __init__(self, eng, r, sts, tag):
        self.eng, self.r, self.sts, self.tag = eng, r, sts, tag
        self.cons, self.pow2 = set(), set()
        self.phib = {}

    def val(self, path, vs):
        a = vs[0]
        if all(v == a for v in vs[1:]):
            return a
        eng = self.eng
        if all(isinstance(v, Poly) for v in vs):
            los = []
            x = eng.fresh("join" + str(path[-1]), FUZZY, None, None)
            if any(hist_syms(v) for v in vs):
                HISTDEP.add(min(x.syms()))
            for s0 in (0, 1):
                pass
            # interval of the alternatives when constant; relation to common bounds otherwise
            if all(v.is_const() for v in vs):
                self.cons |= {x - min(v.const for v in vs), P(max(v.const for v in vs)) - x}
            else:
                cands = [ZERO]
                for v in vs:
                    cands.append(v)
                for c in cands:
                    if all(s.ent_ge(v - c) for s, v in zip(self.sts, vs)):
                        self.cons.add(x - c)
                    if c is not ZERO and all(s.ent_ge(c - v) for s, v in zip(self.sts, vs)):
                        self.cons.add(c - x)
                if all(s._is_pow2(v) for s, v in zip(self.sts, vs)):
                    self.pow2.add(x)
            SYMS[list(x.syms())[0]].lo = None
            return x
        if all(isinstance(v, FE) for v in vs):
            t = frozenset().union(*[v.taint for v in vs])
            return fe("phi", (self.tag, path), bits=a.bits, taint=t)
        if all(isinstance(v, BoolV) for v in vs):
            return eng.opaque("join", frozenset().union(*[cond_taint(v.c) for v in vs]))
        ty = type(a)
        if all(type(v) is ty for v in vs):
            if ty is Struct and all(v.tag == a.tag and len(v.f) == len(a.f) for v in vs):
                return Struct(a.tag, tuple(self.val(path + (i,), [v.f[i] for v in vs]) for i in range(len(a.f))))
            if ty is Enum and all(v.tag == a.tag and v.v == a.v and len(v.f) == len(a.f) for v in vs):
                return Enum(a.tag, a.v, tuple(self.val(path + (i,), [v.f[i] for v in vs]) for i in range(len(a.f))))
            if ty is Slc and all(v.buf == a.buf for v in vs):
                return Slc(a.buf, self.val(path + ("off",), [v.off for v in vs]), self.val(path + ("len",), [v.len for v in vs]), a.mut)
            if ty in (Slc,):
                return Slc(self.phibuf([v.buf for v in vs]), self.val(path + ("off",), [v.off for v in vs]), self.val(path + ("len",), [v.len for v in vs]), a.mut)
            if ty is BoxS:
                return BoxS(self.val(path, [v.s for v in vs]))
            if ty in (Vec, Arr):
                return ty(self.phibuf([v.buf for v in vs]), self.val(path + ("len",), [v.len for v in vs]))
            if ty is RawP and all(v.buf == a.buf for v in vs):
                return RawP(a.buf, self.val(path + ("off",), [v.off for v in vs]))
            if ty is Iter and all(v.seq == a.seq for v in vs):
                return Iter(a.seq, self.val(path + ("pos",), [v.pos for v in vs]), self.val(path + ("end",), [v.end for v in vs]))
            if ty is Lanes and all(len(v.e) == len(a.e) for v in vs):
                return Lanes(tuple(self.val(path + (i,), [v.e[i] for v in vs]) for i in range(len(a.e))))
            if ty is StrV:
                return StrV(None, frozenset().union(*[v.taint for v in vs]))
            if ty is Ref and all(v.base[0] == "b" and v.base[1] == a.base[1] and v.path == a.path for v in vs):
                return Ref(("b", a.base[1], self.val(path + ("ix",), [v.base[2] for v in vs])), a.path, a.mut)
        t = frozenset().union(*[taint_of(v) for v in vs])
        tyi = next((v.ty for v in vs if isinstance(v, Top)), None)
        if tyi is None:
            tyi = self.type_at(path)
        return Top(tyi if tyi is not None else 0, f"join{self.tag}", t, "fuzzy")

    def type_at(self, path):
        c = path[0]
        if len(path) == 1 and isinstance(c, tuple) and isinstance(c[0], int):
            for f in self.eng.stack[::-1]:
                fn = self.eng.prog.fns.get(f)
                if fn and c[1] < len(fn.locals):
                    return fn.locals[c[1]][0]
        if isinstance(c, tuple) and c[0] == "ret":
            fn = self.eng.prog.fns.get(self.eng.stack[-1]) if self.eng.stack else None
            if fn and len(path) == 1:
                return fn.locals[0][0]
        return None

    def phibuf(self, ids):
        k = tuple(ids)
        if k in self.phib:
            return self.phib[k]
        if len(set(ids)) == 1:
            return ids[0]
        eng = self.eng
        bs = [s.bufs[i] for s, i in zip(self.sts, ids) if i in s.bufs]
        root = bs[0].root if all(b.root == bs[0].root for b in bs) else "alloc"
        t = EMPTY
        for s, b in zip(self.sts, bs):
            t |= eng.buf_taint(s, b)
        # covered only when every alternative is fully free of stale content
        ln = None
        self.phib[k] = nb = eng.new_buf(self.r, bs[0].ety, root, taint=t, length=ln)
        return nb

    def bufs(self):
        eng = self.eng
        for bid in list(self.r.bufs):
            bs = [s.bufs.get(bid) for s in self.sts]
            if any(b is None for b in bs):
                continue
            a = bs[0]
            if all(b == a for b in bs):
                continue
            self.r.bufs[bid] = join_buf(eng, self.sts, bs, bid, self.tag)
        for s in self.sts[1:]:
            for bid, b in s.bufs.items():
                if bid not in self.r.bufs:
                    self.r.bufs[bid] = b


def join_buf(eng, sts, bs, bid, tag):
    a = bs[0]
    t, ct = EMPTY, EMPTY
    covs = []
    for s, b in zip(sts, bs):
        lt = EMPTY
        for e in b.log:
            if e[0] == "e":
                lt |= taint_of(e[2], s)
            elif e[0] == "f":
                lt |= taint_of(e[3], s)
            else:
                lt |= eng.buf_taint(s, e[3])
        t |= b.taint | (taint_of(b.base[1], s) if b.base[0] == "fill" else EMPTY)
        ct |= b.ctaint | lt
        covs.append(b.cover)
    cover = []
    for lo, hi in {c for cv in covs for c in cv}:
        if all(any(s.ent_ge(lo - l) and s.ent_ge(h - hi) for l, h in cv) for s, cv in zip(sts, covs)):
            cover.append((lo, hi))
    return Buf(a.ety, a.root, ("leaf", f"{a.root}@{bid}"), t, tag, (), tuple(sorted(cover, key=repr)), ct, a.length)


class Loop:
    """header generalisation of one loop for one entry state"""

    def __init__(self, eng, st, uid, key, line):
        self.eng, self.st, self.uid, self.key, self.line = eng, st, uid, key, line
        self.t = S(new_sym(f"t{uid}", ITER, 0, ISIZE_MAX))
        self.phis = {}       # path -> (entry value, value at header, kind, delta)
        self.ftaint = {}
        self.cands = None    # list of ('ge'|'pow2', poly)
        self.dropped = set()
        self.split = None
        self.shapes = []     # list of dict path -> buf id
        self.mbufs = {}      # bid -> (taint, ctaint)
        self.fbuf = {}
        self.covers = {}     # bid -> list of (lo,hi) in terms of t
        self.coverdrop = set()
        self.killed = set()
        self.effs = st.eff
        self.evs = None
        self.backvals = {}
        self.newguards = set()

    # -- value generalisation
    def g(self, path, a, bs):
        """generalised header value for entry value a and back-edge values bs"""
        eng = self.eng
        if path not in self.phis and all(b == a for b in bs):
            return a
        if isinstance(a, Poly) and all(isinstance(b, Poly) for b in bs):
            return self.gint(path, a, bs)
        if isinstance(a, FE) and all(isinstance(b, FE) for b in bs):
            t = a.taint.union(*[b.taint for b in bs]) | self.ftaint.get(path, EMPTY)
            self.ftaint[path] = t
            v = fe("phi", (self.uid, path), bits=a.bits, taint=t)
            self.phis[path] = (a, v, "float", None)
            return v
        if isinstance(a, BoolV):
            t = cond_taint(a.c).union(*[cond_taint(b.c) if isinstance(b, BoolV) else EMPTY for b in bs])
            v = BoolV(("opq", f"phi{self.uid}{path}", t))
            self.phis[path] = (a, v, "bool", None)
            return v
        ty = type(a)
        if all(type(b) is ty for b in bs):
            if ty is Struct and all(b.tag == a.tag and len(b.f) == len(a.f) for b in bs):
                return Struct(a.tag, tuple(self.g(path + (i,), a.f[i], [b.f[i] for b in bs]) for i in range(len(a.f))))
            if ty is Enum and all(b.tag == a.tag and b.v == a.v and len(b.f) == len(a.f) for b in bs):
                return Enum(a.tag, a.v, tuple(self.g(path + (i,), a.f[i], [b.f[i] for b in bs]) for i in range(len(a.f))))
            if ty is Slc:
                off = self.g(path + ("off",), a.off, [b.off for b in bs])
                ln = self.g(path + ("len",), a.len, [b.len for b in bs])
                return Slc(a.buf, off, ln, a.mut)
            if ty is BoxS:
                return BoxS(self.g(path, a.s, [b.s for b in bs]))
            if ty is RawP:
                return RawP(a.buf, self.g(path + ("off",), a.off, [b.off for b in bs]))
            if ty in (Vec, Arr):
                ln = self.g(path + ("len",), a.len, [b.len for b in bs])
                if all(b.buf == a.buf for b in bs):
                    return ty(a.buf, ln)
                self.fbuf.setdefault(path, None)
                return ty(self.phibuf(path, a, bs), ln)
            if ty is Iter and all(eng.seqshape(b.seq) == eng.seqshape(a.seq) for b in bs):
                return Iter(a.seq, self.g(path + ("pos",), a.pos, [b.pos for b in bs]), self.g(path + ("end",), a.end, [b.end for b in bs]))
            if ty is Lanes and all(len(b.e) == len(a.e) for b in bs):
                return Lanes(tuple(self.g(path + (i,), a.e[i], [b.e[i] for b in bs]) for i in range(len(a.e))))
            if ty is Ref and a.base[0] == "b" and all(b.base[0] == "b" and b.base[1] == a.base[1] and b.path == a.path for b in bs):
                return Ref(("b", a.base[1], self.g(path + ("ix",), a.base[2], [b.base[2] for b in bs])), a.path, a.mut)
            if ty is StrV:
                return StrV(None, a.taint.union(*[b.taint for b in bs]))
        t = taint_of(a, self.st).union(*[taint_of(b) for b in bs])
        w = Widen(eng, self.st, [self.st], ("w", self.uid))
        tyi = a.ty if isinstance(a, Top) else w.type_at(path)
        v = Top(tyi if tyi is not None else 0, f"phi{self.uid}{path}", t, "fuzzy")
        self.phis[path] = (a, v, "top", None)
        return v

    def gint(self, path, a, bs):
        if path in self.phis:
            a0, v, kind, d = self.phis[path]
            if kind != "affine" or path not in self.killed:
                return v
        ds = [b - a for b in bs] if bs else []
        if path not in self.killed and ds and all(d == ds[0] for d in ds) and ds[0].t:
            v = a + ds[0] * self.t
            self.phis[path] = (a, v, "affine", ds[0])
            return v
        x = S(new_sym(f"phi{self.uid}.{path_name(path)}", FUZZY, None, None))
        if any(hist_syms(v) for v in [a] + list(bs)):
            HISTDEP.add(min(x.syms()))
        self.phis[path] = (a, x, "fuzzy", None)
        self.cands = None
        return x

    def phibuf(self, path, a, bs):
        nb = self.fbuf.get(path)
        st = self.st
        if nb is None:
            b = st.bufs[a.buf]
            self.eng.nbuf += 1
            nb = self.fbuf[path] = self.eng.nbuf
            self.mbufs.setdefault(nb, [EMPTY, EMPTY])
            self.phib_src = getattr(self, "phib_src", {})
            self.phib_src[nb] = b
        return nb

    # -- first look at the back edges
    def learn(self, backs):
        self.absorb(backs)

    def shape_of(self, st):
        """buffer identities of borrowed views held in live cells"""
        out = {}

        def rec(path, v):
            if isinstance(v, Slc):
                out[path] = v.buf
            elif isinstance(v, BoxS):
                out[path] = v.s.buf
            elif isinstance(v, RawP):
                out[path] = v.buf
            elif isinstance(v, (Struct, Enum)):
                for i, x in enumerate(v.f):
                    rec(path + (i,), x)
        for c, v in st.cells.items():
            if c in self.st.cells:
                rec((c,), v)
        return out

    def absorb(self, backs):
        """include the back-edge states; returns True when the generalisation had to grow"""
        eng, st = self.eng, self.st
        grew = False
        before = dict(self.phis)
        ft = dict(self.ftaint)
        nph = len(self.phis)
        self.gcells = {}
        for c, a in st.cells.items():
            bs = [b.cells[c] for b in backs if c in b.cells]
            if len(bs) < len(backs):
                if isinstance(c[0], int):
                    # dead at some back edge: not live
                    if not bs:
                        continue
            self.gcells[c] = self.g((c,), a, bs)
        if set(self.phis) != set(before) or any(self.phis[p][1] is not before[p][1] and self.phis[p][1] != before[p][1] for p in before):
            grew = True
        if ft != self.ftaint:
            grew = True
        # shapes
        s0 = self.shape_of(st)
        if not self.shapes:
            self.shapes.append({})
        for b in backs:
            sh = self.shape_of(b)
            diff = {p: x for p, x in sh.items() if p in s0 and s0[p] != x}
            # only buffers known before the loop can be kept by identity
            ok_ = all(x in st.bufs for x in diff.values())
            if not ok_:
                raise Giveup(f"loop {self.key}: view of a buffer created inside the loop")
            if diff not in self.shapes:
                self.shapes.append(diff)
                grew = True
                if len(self.shapes) > 4:
                    raise Giveup("too many shapes")
        # modified buffers
        for bid, b0 in st.bufs.items():
            for b in backs:
                b1 = b.bufs.get(bid)
                if b1 is None:
                    continue
                if b1 is b0 or (b1.log == b0.log and b1.ver == b0.ver and b1.base == b0.base and b1.taint == b0.taint and b1.ctaint == b0.ctaint and bid not in self.mbufs):
                    continue
                if bid in self.mbufs and b1 is getattr(self, "hb", {}).get(bid):
                    continue
                m = self.mbufs.setdefault(bid, [EMPTY, EMPTY])
                if bid not in getattr(self, "mb_seen", set()):
                    self.mb_seen = getattr(self, "mb_seen", set()) | {bid}
                    grew = True
                lt = EMPTY
                h = getattr(self, "hb", {}).get(bid)
                start = 0
                for e in b1.log:
                    if h is None and e in b0.log:
                        continue
                    lt |= taint_of(e[2], b) if e[0] == "e" else taint_of(e[3], b) if e[0] == "f" else eng.buf_taint(b, e[3])
                nt = m[0] | (b1.taint if b1.ver != b0.ver else EMPTY)
                nct = m[1] | lt | (b1.ctaint - b0.ctaint)
                if nt != m[0] or nct != m[1]:
                    self.mbufs[bid] = [nt, nct]
                    grew = True
        for b in backs:
            for path, nb in self.fbuf.items():
                v = at_path(b.cells.get(path[0]), path[1:])
                if v is None or v.buf not in b.bufs:
                    continue
                t = eng.buf_taint(b, b.bufs[v.buf])
                m = self.mbufs.setdefault(nb, [EMPTY, EMPTY])
                if t - m[0]:
                    self.mbufs[nb] = [m[0] | t, m[1]]
                    grew = True
        e = self.effs | self.loop_effs(backs)
        if e != self.effs:
            self.effs = e
            grew = True
        self.learn_covers(backs)
        return grew

    def loop_effs(self, backs):
        """effects of completed iterations: a write every iteration performs holds once the count t is positive ('w?'), any other may
        or may not have happened ('may')"""
        t = list(self.t.syms())[0]
        out, sure, roots = set(), [], set()
        for b in backs:
            d = set()
            for e in b.eff:
                if e[0] == "w":
                    d.add(e[1])
                elif e[0] == "w?":
                    roots.add(e[1])
                    if e[2] != t and b.ent_ge(S(e[2]) - 1):
                        d.add(e[1])
                elif e[0] == "may":
                    roots.add(e[1])
                else:
                    out.add(e)
            roots |= d
            sure.append(d)
        every = set.intersection(*sure) if sure else set()
        for r in roots:
            if ("w", r) in self.st.eff:
                continue
            out.add(("w?", r, t) if r in every else ("may", r))
        return frozenset(out)

    def learn_covers(self, backs):
        """ranges written by every iteration that line up into a growing range"""
        st = self.st
        t = list(self.t.syms())[0]
        for bid in list(self.mbufs):
            b0 = st.bufs.get(bid)
            if b0 is None or not (b0.root.startswith("hist") or b0.root.startswith("uninit")):
                continue
            hb = getattr(self, "hb", {}).get(bid)
            if hb is None:
                continue
            base = set(hb.cover)
            for b in backs:
                b1 = b.bufs.get(bid)
                if b1 is None:
                    continue
                for lo, hi in b1.cover:
                    if (lo, hi) in base:
                        continue
                    for l, h in self.cover_cands(b, lo, hi, t):
                        if (bid, l, h) not in self.coverdrop and (l, h) not in self.covers.get(bid, []):
                            self.covers.setdefault(bid, []).append((l, h))
                            self.cands = None

    def cover_cands(self, b, lo, hi, t):
        out = []
        if t in lo.syms():
            nxt = lo.subst({t: S(t) + 1})
            if nxt == hi or b.ent_eq(nxt - hi):
                out.append((lo.subst({t: ZERO}), lo))
        elif t in hi.syms():
            # already accumulated: [lo0, hi(t)] at the back edge is range at t+1
            prev = hi.subst({t: S(t) - 1})
            out.append((lo, prev))
        else:
            out.append((lo, hi))
        return out

    # -- header states
    def heads(self):
        eng = self.eng
        out = []
        self.hb = {}
        for sh in self.shapes:
            s = self.st.copy()
            for c in list(s.cells):
                if c in self.gcells:
                    s.cells[c] = self.gcells[c]
                elif isinstance(c[0], int):
                    del s.cells[c]
            for p, x in sh.items():
                s.cells[p[0]] = set_buf(s.cells[p[0]], p[1:], x)
            for bid, (t, ct) in self.mbufs.items():
                b = s.bufs.get(bid)
                if b is None:
                    b = self.phib_src[bid]
                    s.bufs[bid] = Buf(b.ety, b.root, ("leaf", f"{b.root}@{bid}"), eng.buf_taint(self.st, b) | t | ct, ("L", self.uid), (), (), EMPTY, None)
                    continue
                nb = eng.summarise(s, bid, b, ("L", self.uid))
                cov = list(nb.cover) + [c for c in self.covers.get(bid, []) if (bid,) + c not in self.coverdrop]
                s.bufs[bid] = nb._replace(taint=nb.taint | t, ctaint=nb.ctaint | ct, cover=tuple(cov))
                self.hb[bid] = s.bufs[bid]
            s.eff = self.effs
            t = list(self.t.syms())[0]
            cons = set(s.cons)
            if self.cands is None:
                self.make_cands()
            for k, p in self.cands:
                if k == "ge":
                    cons.add(p)
                elif k == "pow2":
                    s.pow2 = s.pow2 | {p}
                    cons.add(p - 1)
            s.cons = frozenset(cons)
            if self.evs is not None:
                s.evs = self.evs
            if s.infeasible():
                continue
            out.append(s)
        return out

    def entry_env(self):
        env = {list(self.t.syms())[0]: ZERO}
        for p, (a, v, k, d) in self.phis.items():
            if k == "fuzzy":
                env[list(v.syms())[0]] = a
        return env

    def make_cands(self):
        st = self.st
        cs = []
        fz = [(p, a, v) for p, (a, v, k, d) in self.phis.items() if k == "fuzzy"]
        aff = [(p, a, v, d) for p, (a, v, k, d) in self.phis.items() if k == "affine"]
        for p, a, v in fz:
            cs += [("ge", v - a), ("ge", a - v), ("ge", v), ("ge", v - 1)]
            if st._is_pow2(a):
                cs.append(("pow2", v))
        for i in range(len(fz)):
            for j in range(i + 1, len(fz)):
                (p, a, v), (q, b, w) = fz[i], fz[j]
                if len(fz) <= 6:
                    cs += [("ge", v - w), ("ge", w - v)]
                    if not a.is_const() or not b.is_const():
                        cs += [("ge", v * w - a * b), ("ge", a * b - v * w)]
        for p, a, v, d in aff:
            cs += [("ge", v)]
            for q, b, w in fz[:4]:
                cs += [("ge", v - w), ("ge", w - v)]
        for c in self.newguards:
            cs.append(("ge", c))
        env = self.entry_env()
        out = []
        need = []
        for k, p in cs:
            if (k, p) in self.dropped or (k, p) in out:
                continue
            e = p.subst(env)
            if k == "ge" and self.st.ent_ge(e):
                out.append((k, p))
            elif k == "pow2" and self.st._is_pow2(e):
                out.append((k, p))
            else:
                if p in self.newguards and k == "ge":
                    need.append((k, p, e))
        if need and self.split is None and not self.nosplit:
            # split the entry on the guard: zero iterations / at least one
            z = []
            cur = [self.st]
            for k, p, e in need:
                g0 = e  # guard shifted at t=-1; the first guard is p with t:=0 shifted by one
                f = self.first_guard.get(p)
                if f is None:
                    continue
                nxt = []
                for s in cur:
                    nxt += assume(s, ("ge", f))
                    z += assume(s, ("ge", -f - 1))
                cur = nxt
            if len(cur) == 1 and z:
                self.split = z
                self.st = cur[0]
                for k, p, e in need:
                    if self.st.ent_ge(e):
                        out.append((k, p))
        self.cands = out

    # -- stability
    def stable(self, backs):
        eng = self.eng
        t = list(self.t.syms())[0]
        # guards discovered in the body
        if not hasattr(self, "first_guard"):
            self.first_guard = {}
        entry = self.st.cons
        phisyms = {t} | {list(v.syms())[0] for (a, v, k, d) in self.phis.values() if k == "fuzzy"}
        common = None
        for b in backs:
            common = b.cons if common is None else common & b.cons
        grew = False
        if common:
            hc = {p for k, p in (self.cands or [])}
            for c in sorted(common - entry - hc, key=lambda c: (len(c.t), c.t)):
                sy = c.syms()
                if not (sy & phisyms) or len(c.t) > 4:
                    continue
                if any(SYMS[s].kind == ITER and s > t for s in sy):
                    continue
                if any(SYMS[s].kind == FUZZY and s not in phisyms and s > t for s in sy):
                    continue
                if t in sy:
                    sh = c.subst({t: S(t) - 1})
                    fg = c.subst(self.entry_env())
                else:
                    sh = c
                    fg = None
                if sh in self.newguards or ("ge", sh) in self.dropped:
                    continue
                if len(self.newguards) > 24:
                    break
                self.newguards.add(sh)
                if fg is not None:
                    self.first_guard[sh] = fg
                self.cands = None
                grew = True
        # back values of the phis
        if self.absorb(backs):
            self.cands = None
            return False
        if grew:
            return False
        okall = True
        for b in backs:
            env = {t: S(t) + 1}
            for path, (a, v, k, d) in list(self.phis.items()):
                cv = at_path(b.cells.get(path[0]), path[1:])
                if cv is None:
                    continue
                if k == "affine":
                    if not (isinstance(cv, Poly) and b.ent_eq(cv - v - d)):
                        self.killed.add(path)
                        del self.phis[path]
                        self.gint(path, a, [])
                        okall = False
                elif k == "fuzzy" and isinstance(cv, Poly):
                    env[list(v.syms())[0]] = cv
            if not okall:
                break
            for kind, p in list(self.cands or ()):
                q = p.subst(env)
                good = b.ent_ge(q) if kind == "ge" else b._is_pow2(q)
                if not good:
                    self.dropped.add((kind, p))
                    self.cands.remove((kind, p))
                    okall = False
            for bid, lst in self.covers.items():
                b1 = b.bufs.get(bid)
                for l, h in list(lst):
                    if (bid, l, h) in self.coverdrop:
                        continue
                    l2, h2 = l.subst(env), h.subst(env)
                    good = b1 is not None and (b.ent_ge(l2 - h2) or any(b.ent_ge(l2 - x) and b.ent_ge(y - h2) for x, y in b1.cover))
                    # and trivially true on entry
                    e = self.entry_env()
                    le, he = l.subst(e), h.subst(e)
                    b0 = self.st.bufs.get(bid)
                    good = good and (self.st.ent_ge(le - he) or any(self.st.ent_ge(le - x) and self.st.ent_ge(y - he) for x, y in b0.cover))
                    if not good:
                        self.coverdrop.add((bid, l, h))
                        okall = False
        # covered ranges present on entry must survive (they do: covering is monotone)
        if not okall:
            # refresh generalised cells with the demoted phis
            self.gcells = {c: self.g((c,), a, [b.cells[c] for b in backs if c in b.cells]) for c, a in self.st.cells.items()
                           if not (isinstance(c[0], int) and not any(c in b.cells for b in backs))}
        return okall


def path_name(path):
    c = path[0]
    return f"{c[1] if isinstance(c, tuple) and len(c) > 1 else c}" + "".join(f".{x}" for x in path[1:])


def at_path(v, path):
    for i in path:
        if v is None:
            return None
        if i == "off":
            v = v.off if isinstance(v, (Slc, RawP)) else (v.s.off if isinstance(v, BoxS) else None)
        elif i == "len":
            v = v.len if isinstance(v, (Slc, Vec, Arr)) else (v.s.len if isinstance(v, BoxS) else None)
        elif i == "pos":
            v = v.pos if isinstance(v, Iter) else None
        elif i == "end":
            v = v.end if isinstance(v, Iter) else None
        elif i == "ix":
            v = v.base[2] if isinstance(v, Ref) and v.base[0] == "b" else None
        elif isinstance(v, (Struct, Enum)):
            v = v.f[i] if i < len(v.f) else None
        elif isinstance(v, Lanes):
            v = v.e[i]
        else:
            return None
    return v


def set_buf(v, path, x):
    if not path:
        if isinstance(v, BoxS):
            return BoxS(v.s._replace(buf=x))
        return v._replace(buf=x)
    f = list(v.f)
    f[path[0]] = set_buf(f[path[0]], path[1:], x)
    return v._replace(f=tuple(f))
