"""Path-wise provenance: enumerates the paths of a function (calls to functions of the crate inlined, loops followed a bounded number
of times) and keeps, for every value, the term that produced it.  A path is a sequence of external calls together with the branch
decisions taken about their results; properties about ordering, error propagation and delegation are read off these sequences.
Nothing is executed and no solver is involved: a branch on a value already decided on the path follows that decision, otherwise both
sides are followed."""
import re

MAXPATHS = 6000
VISITS = 2


class Cut(Exception):
    pass


class TooMany(Exception):
    pass


UNIT = ("agg", "tuple", 0, ())


def contains(t, pred):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x and isinstance(x[0], str) and pred(x):
                return True
            st.extend(x)
    return False


def subterms(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x and isinstance(x[0], str):
                yield x
            st.extend(x)


class Ev:
    __slots__ = ("name", "args", "raw", "res", "fn", "line", "inst", "pos", "dec", "ty")

    def __init__(self, name, args, raw, res, fn, line, inst, dec):
        self.name, self.args, self.raw, self.res, self.fn, self.line, self.inst, self.dec = name, args, raw, res, fn, line, inst, dec

    def __repr__(self):
        return f"{self.name}@{self.line}"


class TS:
    """path state"""
    __slots__ = ("cells", "dec", "evs", "mem")

    def __init__(self):
        self.cells, self.dec, self.evs, self.mem = {}, {}, (), {}

    def copy(self):
        s = TS()
        s.cells, s.dec, s.evs, s.mem = dict(self.cells), dict(self.dec), self.evs, dict(self.mem)
        return s


# methods that hand on their receiver unchanged
IDENT = re.compile(r"(Clone::clone|ToOwned::to_owned|::as_ref|::as_mut|::as_deref|::as_deref_mut|::cloned|::copied|Deref::deref|DerefMut::deref_mut|"
                   r"Borrow::borrow|BorrowMut::borrow_mut|From::from|Into::into|ToString::to_string|::to_path_buf|::as_path|::as_str|::as_os_str|::to_vec|"
                   r"::into_boxed_\w+|::as_slice|::as_mut_slice|::into_iter|::iter|::by_ref|Box::<T>::new|::into_owned|::to_owned|::as_bytes|Path::new)$")
PURE = re.compile(r"^(<?core::(str|cmp|num|slice|ops|convert|clone|fmt|mem::size)|<?std::(path|ffi)::|<?alloc::(string|str|borrow|fmt)|<.* as core::cmp::)")
BUILDER = re.compile(r"std::process::Command::(arg|args|env|envs|env_clear|env_remove|current_dir|stdin|stdout|stderr)$")
DIVERGE = re.compile(r"(panicking::|::unwrap_failed|::expect_failed|process::exit|process::abort|intrinsics::abort)")


class Tracer:
    def __init__(self, prog, opaque=lambda key: False, visits=VISITS, maxpaths=MAXPATHS):
        self.prog, self.opaque, self.visits, self.maxpaths = prog, opaque, visits, maxpaths
        self.uid = 0
        self.paths = 0
        self.cut = 0
        self.steps = 0

    # ---------------------------------------------------------------- values
    def decide(self, st, key):
        return st.dec.get(key)

    def put_dec(self, st, key, v):
        s = st.copy()
        s.dec[key] = v
        return s

    def resolve(self, st, v, depth=6):
        """value with references replaced by what they point to"""
        if not isinstance(v, tuple) or depth < 0:
            return v
        if v[0] == "ref":
            return self.resolve(st, self.read(st, v[1], v[2]), depth - 1)
        if v[0] == "agg":
            return ("agg", v[1], v[2], tuple(self.resolve(st, x, depth - 1) for x in v[3]))
        return v

    def proj(self, v, p):
        for e in p:
            if e[0] == "v":
                if v[0] == "agg":
                    continue
                v = ("var", v, e[1])
            elif e[0] == "f":
                if v[0] == "agg" and v[1] != "array" and e[1] < len(v[3]):
                    v = v[3][e[1]]
                elif v[0] == "agg" and v[1] == "union":
                    v = v[3][0]
                else:
                    v = ("fld", v, e[1])
            elif e[0] == "i":
                if v[0] == "agg" and v[1] == "array" and isinstance(e[1], int) and e[1] < len(v[3]):
                    v = v[3][e[1]]
                else:
                    v = ("idx", v, e[1])
        return v

    def read(self, st, cell, path):
        if isinstance(cell, tuple) and cell and cell[0] == "term":
            t = cell[1]
            for i in range(len(path), -1, -1):
                k = (t, tuple(path[:i]))
                if k in st.mem:
                    return self.proj(st.mem[k], path[i:])
            return self.proj(t, path)
        v = st.cells.get(cell, ("undef",))
        return self.proj(v, path)

    def update(self, v, path, nv):
        if not path:
            return nv
        e = path[0]
        if e[0] == "v":
            if v[0] == "agg" and v[2] == e[1]:
                return self.update(v, path[1:], nv)
            return ("agg", "?", e[1], self._upd_fields((), path[1:], nv))
        if e[0] == "f":
            fs = v[3] if v[0] == "agg" and v[1] != "array" else ()
            base = None if v[0] == "agg" else v
            out = list(fs)
            while len(out) <= e[1]:
                out.append(("fld", base, len(out)) if base and base[0] != "undef" else ("undef",))
            out[e[1]] = self.update(out[e[1]], path[1:], nv)
            return ("agg", v[1] if v[0] == "agg" else "?", v[2] if v[0] == "agg" else 0, tuple(out))
        if e[0] == "i" and v[0] == "agg" and v[1] == "array" and isinstance(e[1], int) and e[1] < len(v[3]):
            out = list(v[3])
            out[e[1]] = self.update(out[e[1]], path[1:], nv)
            return ("agg", "array", 0, tuple(out))
        self.uid += 1
        return ("upd", self.uid, v, nv)

    def _upd_fields(self, fs, path, nv):
        if not path:
            return (nv,)
        out = []
        if path[0][0] == "f":
            while len(out) <= path[0][1]:
                out.append(("undef",))
            out[path[0][1]] = self.update(out[path[0][1]], path[1:], nv)
        return tuple(out)

    def write(self, st, loc, nv):
        cell, path = loc
        if isinstance(cell, tuple) and cell and cell[0] == "term":
            st.mem[(cell[1], tuple(path))] = nv
            for k in [k for k in st.mem if k[0] == cell[1] and len(k[1]) > len(path) and k[1][:len(path)] == tuple(path)]:
                del st.mem[k]
            return True
        st.cells[cell] = self.update(st.cells.get(cell, ("undef",)), path, nv)
        return False

    def place(self, st, fr, pl):
        cell, path = (fr, pl[0]), ()
        for e in pl[1]:
            k = e[0]
            if k == "deref":
                v = self.read(st, cell, path)
                if v[0] == "ref":
                    cell, path = v[1], v[2]
                else:
                    cell, path = ("term", v), ()
            elif k == "field":
                path += (("f", e[1]),)
            elif k == "downcast":
                path += (("v", e[1]),)
            elif k == "index":
                v = self.read(st, (fr, e[1]), ())
                if not (isinstance(cell, tuple) and cell and cell[0] == "term"):
                    # an element of a local vector reached through a reference: an element of the vector's value
                    w = self.read(st, cell, path)
                    if w[0] in ("call", "mut", "arg"):
                        cell, path = ("term", w), ()
                path += (("i", v[1] if v[0] == "int" else v),)
            elif k == "cindex":
                path += (("i", e[1] if not e[3] else ("end", e[1])),)
            elif k == "subslice":
                path += (("i", ("sub", e[1], e[2], e[3])),)
            else:
                path += (("i", ("other",)),)
        return cell, path

    def const(self, c):
        if "fn" in c:
            return ("fn", c.get("inst") or c["fn"], c["fn"])
        if "str" in c:
            return ("str", c["str"])
        t = self.prog.tys[c["ty"]]
        if "bits" in c and t["k"] in ("int", "bool", "char", "float", "adt"):
            b = int(c["bits"])
            if t["k"] == "int" and t["signed"] and b >= 1 << (t["bits"] - 1):
                b -= 1 << t["bits"]
            if t["k"] == "float":
                return ("flt", b, t["bits"])
            if t["k"] == "adt" and t.get("variants"):
                for i, v in enumerate(t["variants"]):
                    if t.get("adt") == "enum" and int(v["disc"]) == b and not v["fields"]:
                        return ("agg", t["path"], i, ())
                return ("cst", t["path"], b)
            return ("int", b)
        if t["k"] == "tuple" and c.get("zst"):
            return UNIT
        if t["k"] == "closure":
            return ("agg", ("closure", t.get("inst") or t["path"]), 0, ())
        return ("cst", c.get("def") or c.get("static") or c.get("param") or t["s"], c.get("promoted"), (c.get("bytes") or "")[:400])

    def operand(self, st, fr, o):
        if o[0] in ("copy", "move"):
            return self.read(st, *self.place(st, fr, o[1]))
        if o[0] == "const":
            return self.const(o[1])
        return ("int", 0)

    def rvalue(self, st, fr, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "repeat":
            return ("rep", self.operand(st, fr, rv[1]), rv[2])
        if k in ("ref", "rawptr"):
            cell, path = self.place(st, fr, rv[2])
            if isinstance(cell, tuple) and cell[0] == "term" and not path:
                return cell[1] if (cell[1], ()) not in st.mem else ("ref", cell, path)
            return ("ref", cell, path)
        if k == "cast":
            v = self.operand(st, fr, rv[2])
            if v[0] in ("ref", "agg", "fn", "str") or rv[1].startswith(("PointerCoercion", "Ptr", "Transmute", "Subtype")):
                return v
            ft, tt = self.prog.tys[rv[3]], self.prog.tys[rv[4]]
            if v[0] == "int" and tt["k"] == "int":
                return v
            return ("cast", v, tt["s"])
        if k == "bin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            return self.binop(rv[1], a, b)
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                if a[0] == "not":
                    return a[1]
                if a[0] == "int" and a[1] in (0, 1):
                    return ("int", 1 - a[1])
                return ("not", a)
            if rv[1] == "PtrMetadata":
                return ("call", "len", None, (self.resolve(st, a),))
            return ("un", rv[1], a)
        if k == "discr":
            v = self.read(st, *self.place(st, fr, rv[1]))
            t = self.prog.tys[rv[2]]
            return ("discr", v, rv[2] if t.get("variants") else None)
        if k == "agg":
            kind = rv[1]
            ops = tuple(self.operand(st, fr, o) for o in rv[2])
            if kind[0] == "tuple":
                return ("agg", "tuple", 0, ops)
            if kind[0] == "array":
                return ("agg", "array", 0, ops)
            if kind[0] == "adt":
                return ("agg", self.prog.tys[kind[1]]["path"], kind[2], ops)
            if kind[0] == "closure":
                t = self.prog.tys[kind[1]]
                return ("agg", ("closure", t.get("inst") or t["path"]), 0, ops)
            return ("agg", "raw", 0, ops)
        return ("rv", str(rv[0]))

    def binop(self, op, a, b):
        chk = op.endswith("WithOverflow")
        o = op[:-12] if chk else op
        r = None
        if a[0] == "int" and b[0] == "int":
            x, y = a[1], b[1]
            if o == "Add":
                r = ("int", x + y)
            elif o == "Sub":
                r = ("int", x - y)
            elif o == "Mul":
                r = ("int", x * y)
            elif o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                r = ("int", int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[o]))
            elif o == "Div" and y:
                r = ("int", x // y)
        if r is None and o == "Eq" and a == b and a[0] != "flt":
            r = ("int", 1)
        if r is None:
            if o == "Ne":
                r = ("not", ("bin", "Eq", a, b))
            elif o == "Gt":
                r = ("bin", "Lt", b, a)
            elif o == "Ge":
                r = ("not", ("bin", "Lt", a, b))
            elif o == "Le":
                r = ("not", ("bin", "Lt", b, a))
            else:
                r = ("bin", o, a, b)
        return ("agg", "tuple", 0, (r, ("int", 0))) if chk else r

    # ---------------------------------------------------------------- running
    def run(self, fn, args):
        """list of (state, return value) of complete paths"""
        st = TS()
        self.frames = 0
        return self.exec(fn, args, st, ())

    def exec(self, fn, args, st, stack):
        if len(stack) > 12 or fn.key in stack:
            raise Cut()
        self.frames += 1
        fr = self.frames
        stack = stack + (fn.key,)
        for i, a in enumerate(args):
            st.cells[(fr, i + 1)] = a
        if fn.d.get("closure") and len(args) == 2 and fn.argc > 2 and args[1][0] == "agg":
            for i, a in enumerate(args[1][3]):
                st.cells[(fr, i + 2)] = a
        out = []
        todo = [(0, st, {})]
        while todo:
            b, s, vis = todo.pop()
            self.steps += 1
            if self.steps > 400000:
                raise TooMany()
            c = vis.get(b, 0)
            if c >= self.visits:
                self.cut += 1
                continue
            vis = dict(vis)
            vis[b] = c + 1
            blk = fn.blocks[b]
            for x in blk["s"]:
                if x[0] == "=":
                    v = self.rvalue(s, fr, x[2])
                    loc = self.place(s, fr, x[1])
                    if self.write(s, loc, v):
                        s.evs += (Ev("write", (self.proj(loc[0][1], loc[1]), self.resolve(s, v)), (), v, fn, x[3] if len(x) > 3 else blk["l"], None, len(s.dec)),)
                elif x[0] == "setdiscr":
                    pass
            t = blk["t"]
            k = t[0]
            if k == "goto":
                todo.append((t[1], s, vis))
            elif k == "return":
                self.paths += 1
                if self.paths > self.maxpaths:
                    raise TooMany()
                out.append((s, s.cells.get((fr, 0), UNIT)))
            elif k == "switch":
                for s2, tgt in self.switch(s, fr, t):
                    todo.append((tgt, s2, vis))
            elif k == "drop":
                todo.append((t[2], s, vis))
            elif k == "assert":
                todo.append((t[4], s, vis))
            elif k == "call":
                for s2, v in self.call(fn, fr, b, t, s, stack):
                    if t[4] is None:
                        continue
                    self.write(s2, self.place(s2, fr, t[3]), v)
                    todo.append((t[4], s2, vis))
        return out

    def atom(self, v):
        """(term, negated) of a boolean"""
        neg = False
        while v[0] == "not":
            v, neg = v[1], not neg
        return v, neg

    def switch(self, s, fr, t):
        v = self.operand(s, fr, t[1])
        cases = [(int(a), b) for a, b in t[2]]
        if v[0] == "int":
            for a, b in cases:
                if a == v[1]:
                    return [(s, b)]
            return [(s, t[3])]
        if v[0] == "discr":
            x = v[1]
            if x[0] == "ref":
                x = self.resolve(s, x)
            if x[0] == "agg":
                d = x[2]
                if v[2] is not None:
                    vs = self.prog.tys[v[2]]["variants"]
                    if d is not None and d < len(vs):
                        d = int(vs[d]["disc"])
                for a, b in cases:
                    if a == d:
                        return [(s, b)]
                return [(s, t[3])]
            key = ("variant", x)
            m = {}
            if v[2] is not None:
                m = {int(y["disc"]): i for i, y in enumerate(self.prog.tys[v[2]]["variants"])}
            k = s.dec.get(key)
            if k is not None and not isinstance(k, tuple):
                for a, b in cases:
                    if m.get(a, a) == k:
                        return [(s, b)]
                return [(s, t[3])]
            ex = k[1] if k else ()
            out = [(self.put_dec(s, key, m.get(a, a)), b) for a, b in cases if m.get(a, a) not in ex]
            rest = [i for i in m.values() if i not in {m.get(a, a) for a, _ in cases} and i not in ex]
            if len(rest) == 1:
                out.append((self.put_dec(s, key, rest[0]), t[3]))
            elif rest or not m:
                out.append((self.put_dec(s, key, ("not", tuple(ex) + tuple(m.get(a, a) for a, _ in cases))), t[3]))
            return out
        v, neg = self.atom(v)
        if len(cases) == 1 and cases[0][0] == 0 and self.prog.tys[t[4]]["k"] == "bool":
            k = s.dec.get(v)
            out = []
            for val, tgt in ((0, cases[0][1]), (1, t[3])):
                real = 1 - val if neg else val
                if k is None or k == real:
                    out.append((self.put_dec(s, v, real), tgt))
            return out
        # integer switch: one Eq decision per case
        out, cur = [], s
        for a, b in cases:
            key = ("bin", "Eq", v, ("int", a))
            k = cur.dec.get(key)
            if k == 1:
                out.append((cur, b))
                return out
            if k is None:
                out.append((self.put_dec(cur, key, 1), b))
                cur = self.put_dec(cur, key, 0)
        out.append((cur, t[3]))
        return out

    # ---------------------------------------------------------------- calls
    def call(self, fn, fr, b, t, st, stack):
        f = t[1]
        raw = [self.operand(st, fr, o) for o in t[2]]
        line = t[6]
        if f[0] == "const" and "fn" in f[1]:
            fv = ("fn", f[1].get("inst") or f[1]["fn"], f[1]["fn"])
        else:
            fv = self.operand(st, fr, f)
        muts = [self.muttype(fn, o) for o in t[2]]
        self.ty = self.prog.tys[t[7]]["s"] if len(t) > 7 and isinstance(t[7], int) else ""
        return self.apply(fv, raw, fn, line, st, stack, muts)

    def muttype(self, fn, o):
        if o[0] in ("copy", "move") and not o[1][1]:
            t = self.prog.tys[fn.locals[o[1][0]][0]]
            return t["k"] in ("ref", "ptr") and bool(t.get("mut"))
        return o[0] != "const"

    def apply(self, fv, raw, fn, line, st, stack, muts=None):
        if fv[0] == "ref":
            fv = self.resolve(st, fv)
        if fv[0] == "agg" and isinstance(fv[1], tuple) and fv[1][0] == "closure":
            return self.enter(fv[1][1], [fv] + list(raw), fn, line, st, stack)
        if fv[0] != "fn":
            return self.external("indirect", None, raw, fn, line, st, muts)
        inst, path = fv[1], fv[2]
        # calling a closure or function value
        if re.search(r"ops::function::Fn(Once|Mut)?::call(_once|_mut)?$", path):
            g = self.resolve(st, raw[0]) if raw[0][0] == "ref" else raw[0]
            tup = raw[1] if raw[1][0] == "agg" else self.resolve(st, raw[1])
            if g[0] == "agg" and isinstance(g[1], tuple) and g[1][0] == "closure":
                return self.enter(g[1][1], [g, tup], fn, line, st, stack)
            if g[0] == "fn" and tup[0] == "agg":
                return self.apply(g, list(tup[3]), fn, line, st, stack)
        key = inst if inst in self.prog.fns else None
        name = inst.split("|")[0]
        m = self.std(name, path, raw, fn, line, st, stack)
        if m is not None:
            return m
        if key and not self.opaque(key):
            try:
                return self.enter(key, raw, fn, line, st, stack)
            except Cut:
                pass
        if DIVERGE.search(name):
            args = tuple(self.resolve(st, a) for a in raw)
            s = st.copy()
            s.evs += (Ev(name, args, tuple(raw), None, fn, line, inst, len(s.dec)),)
            if "process::exit" in name or "process::abort" in name:
                self.exits.append((s, args))
            return []
        return self.external(name, inst, raw, fn, line, st, muts)

    exits = ()

    def enter(self, key, args, fn, line, st, stack):
        f = self.prog.fns.get(key)
        if f is None:
            return self.external(key, None, args, fn, line, st)
        if f.d.get("closure"):
            a0 = args[0]
            t0 = self.prog.tys[f.locals[1][0]] if f.argc else None
            if t0 is not None and t0["k"] == "ref" and a0[0] == "agg":
                st = st.copy()
                self.uid += 1
                c = ("clo", self.uid)
                st.cells[c] = a0
                a0 = ("ref", c, ())
            tup = args[1] if len(args) > 1 else UNIT
            if len(args) == 2 and tup[0] == "agg" and tup[1] == "tuple":
                rest = list(tup[3])
            else:
                rest = list(args[1:])
            args = [a0] + rest
            if f.argc == 2 and len(rest) != 1:
                args = [a0, ("agg", "tuple", 0, tuple(rest))]
        return self.exec(f, args, st.copy(), stack)

    def fork(self, st, v, n=2):
        """(state, variant, payload) for each possible variant of an Option/Result value"""
        if v[0] == "ref":
            v = self.resolve(st, v)
        if v[0] == "agg":
            return [(st, v[2], v[3][0] if v[3] else None)]
        key = ("variant", v)
        k = st.dec.get(key)
        if k is not None and not isinstance(k, tuple):
            return [(st, k, ("fld", ("var", v, k), 0))]
        return [(self.put_dec(st, key, i), i, ("fld", ("var", v, i), 0)) for i in range(n)]

    def std(self, name, path, raw, fn, line, st, stack):
        """models of the standard Option/Result combinators and of functions that hand their argument on"""
        res = "core::result::Result::<T, E>::"
        opt = "core::option::Option::<T>::"
        RES, OPT = "core::result::Result", "core::option::Option"
        if path.endswith("Try::branch"):
            v = raw[0]
            isres = "Result" in name
            out = []
            for s, i, p in self.fork(st, v):
                good = i == 0 if isres else i == 1
                if good:
                    out.append((s, ("agg", "CF", 0, (p,))))
                else:
                    out.append((s, ("agg", "CF", 1, (("agg", RES, 1, (p,)) if isres else ("agg", OPT, 0, ()),))))
            return out
        if path.endswith("FromResidual::from_residual"):
            v = raw[0]
            return [(st, v)]
        if path.endswith("Try::from_output"):
            return [(st, ("agg", RES if "Result" in name else OPT, 0 if "Result" in name else 1, (raw[0],)))]
        pre = res if name.startswith(res) else opt if name.startswith(opt) else None
        if pre:
            m = name[len(pre):]
            isres = pre == res
            T = RES if isres else OPT
            g = 0 if isres else 1
            v = raw[0]
            if m in ("as_ref", "as_mut", "cloned", "copied", "as_deref", "as_deref_mut"):
                return [(st, self.resolve(st, v) if v[0] == "ref" else v)]
            if m in ("is_some", "is_none", "is_ok", "is_err"):
                want = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[m]
                return [(s, ("int", int(i == want))) for s, i, p in self.fork(st, v)]
            if m in ("unwrap", "expect", "unwrap_unchecked"):
                return [(s, p) for s, i, p in self.fork(st, v) if i == g]
            if m in ("unwrap_err", "expect_err"):
                return [(s, p) for s, i, p in self.fork(st, v) if i != g]
            good = lambda p: ("agg", T, g, (p,))
            bad = lambda p: ("agg", T, 1 - g, (p,) if isres else ())
            simple = {"unwrap_or", "unwrap_or_default", "ok", "err", "ok_or", "or", "and"}
            if m in simple:
                out = []
                for s, i, p in self.fork(st, v):
                    if m == "unwrap_or":
                        out.append((s, p if i == g else raw[1]))
                    elif m == "unwrap_or_default":
                        out.append((s, p if i == g else ("call", "default", None, ())))
                    elif m == "ok":
                        out.append((s, ("agg", OPT, 1, (p,)) if i == g else ("agg", OPT, 0, ())))
                    elif m == "err":
                        out.append((s, ("agg", OPT, 1, (p,)) if i != g else ("agg", OPT, 0, ())))
                    elif m == "ok_or":
                        out.append((s, ("agg", RES, 0, (p,)) if i == g else ("agg", RES, 1, (raw[1],))))
                    elif m == "or":
                        out.append((s, good(p) if i == g else raw[1]))
                    elif m == "and":
                        out.append((s, raw[1] if i == g else bad(p)))
                return out
            fns = {"map", "and_then", "map_err", "unwrap_or_else", "ok_or_else", "or_else", "map_or", "map_or_else", "inspect", "inspect_err",
                   "is_some_and", "is_ok_and", "is_none_or", "is_err_and"}
            if m in fns:
                out = []
                for s, i, p in self.fork(st, v):
                    def ap(f, args):
                        return self.apply(f, args, fn, line, s, stack)
                    if m == "map":
                        out += [(s2, good(r)) for s2, r in ap(raw[1], [p])] if i == g else [(s, bad(p))]
                    elif m == "and_then":
                        out += ap(raw[1], [p]) if i == g else [(s, bad(p))]
                    elif m == "map_err":
                        out += [(s2, bad(r)) for s2, r in ap(raw[1], [p])] if i != g else [(s, good(p))]
                    elif m == "unwrap_or_else":
                        out += [(s, p)] if i == g else ap(raw[1], [p] if isres else [])
                    elif m == "ok_or_else":
                        out += [(s, ("agg", RES, 0, (p,)))] if i == g else [(s2, ("agg", RES, 1, (r,))) for s2, r in ap(raw[1], [])]
                    elif m == "or_else":
                        out += [(s, good(p))] if i == g else ap(raw[1], [p] if isres else [])
                    elif m == "map_or":
                        out += ap(raw[2], [p]) if i == g else [(s, raw[1])]
                    elif m == "map_or_else":
                        out += ap(raw[2], [p]) if i == g else ap(raw[1], [p] if isres else [])
                    elif m in ("inspect", "inspect_err"):
                        hit = (i == g) == (m == "inspect")
                        val = good(p) if i == g else bad(p)
                        out += [(s2, val) for s2, _ in ap(raw[1], [p])] if hit else [(s, val)]
                    elif m in ("is_some_and", "is_ok_and"):
                        out += ap(raw[1], [p]) if i == g else [(s, ("int", 0))]
                    elif m == "is_none_or":
                        out += ap(raw[1], [p]) if i == g else [(s, ("int", 1))]
                    elif m == "is_err_and":
                        out += ap(raw[1], [p]) if i != g else [(s, ("int", 0))]
                return out
        if IDENT.search(path) or IDENT.search(name):
            if len(raw) == 1:
                v = raw[0]
                if v[0] == "ref" and path.endswith(("Clone::clone", "ToOwned::to_owned", "ToString::to_string", "::to_vec", "::to_path_buf")):
                    v = self.resolve(st, v)
                return [(st, v)]
        if path.endswith(("mem::drop", "hint::must_use", "hint::black_box", "convert::identity")):
            return [(st, raw[0] if not path.endswith("drop") else UNIT)]
        if path.endswith(("mem::take", "mem::replace")):
            v = self.resolve(st, raw[0])
            s = st.copy()
            nv = raw[1] if len(raw) > 1 else ("call", "default", None, ())
            if raw[0][0] == "ref":
                self.write(s, (raw[0][1], raw[0][2]), nv)
            return [(s, v)]
        return None

    def external(self, name, inst, raw, fn, line, st, muts=None):
        s = st.copy()
        args = tuple(self.resolve(st, a) for a in raw)
        ty = self.ty if muts is not None else ""
        muts = muts or [True] * len(raw)
        if BUILDER.search(name):
            e = Ev(name, args, tuple(raw), args[0], fn, line, inst, len(s.dec))
            e.ty = ""
            s.evs += (e,)
            return [(s, raw[0])]
        pure = (PURE.search(name) or name.endswith(("::len", "::is_empty"))) and not any(m for m in muts)
        if pure:
            r = ("call", name, None, args)
            if name.endswith("PartialEq>::eq") or name.endswith("PartialEq::eq"):
                r = ("bin", "Eq", args[0], args[1])
            elif name.endswith("PartialEq::ne") or name.endswith("PartialEq>::ne"):
                r = ("not", ("bin", "Eq", args[0], args[1]))
            return [(s, r)]
        self.uid += 1
        u = self.uid
        r = ("call", name, u, args)
        for i, a in enumerate(raw):
            if a[0] == "ref" and muts[i] and not (isinstance(a[1], tuple) and a[1][0] == "term"):
                old = self.read(s, a[1], a[2])
                if not (old[0] == "agg" and isinstance(old[1], tuple)):
                    self.write(s, (a[1], a[2]), ("mut", name, u, (old,) + tuple(x for j, x in enumerate(args) if j != i)))
        e = Ev(name, args, tuple(raw), r, fn, line, inst, len(s.dec))
        e.ty = ty
        s.evs += (e,)
        return [(s, r)]
