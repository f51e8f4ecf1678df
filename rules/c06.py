"""Cache discipline of the planners' keyed tables.  Every function that looks a table up or stores one in a map is traced path by path
(helpers, builders and closures inlined, map operations modelled, loops followed for two rounds) and yields, per map, the terms stored
under each key.  Rules: (1) the stored table is a function of its key alone - after replacing the key, no other input of the caller
is left in it, and no other condition changes it; (2) all stores into one map build the same function of the key; (3) hit and miss
paths answer from the same map entry, and that entry is the one the miss stored; (4) a table taken from the compiled-in set on a path
that fixed the size to c has c/2 entries and comes from the constant belonging to that size."""
import re
import struct
from fractions import Fraction
from kai.mir import Prog
from kai.trace import Tracer, TooMany, Cut, Ev, subterms, UNIT
from .graph import Graph, short
from .absint import configs

ASSUMPTIONS = ("tables kept in ordinary hash or tree maps are covered; other ad-hoc caches are not recognised",
               "the contents of compiled-in tables are produced by the build script and are not evaluated here")

MAPOP = re.compile(r"(hashbrown::map::HashMap|std::collections::hash::map::HashMap|alloc::collections::btree::map::BTreeMap)::<[^>]*>::(\w+)$")
ENTRY = re.compile(r"(map::(Entry|OccupiedEntry|VacantEntry|entry::Entry|entry::OccupiedEntry|entry::VacantEntry|EntryRef))::<[^>]*>::(\w+)$")
REWRITE = re.compile(r"::(clear|truncate|resize|resize_with|fill|fill_with|copy_from_slice|clone_from_slice|clone_from|index_mut|as_mut_slice|deref_mut|iter_mut)$")
SKIP = re.compile(r"kofft::media::|__test_")
OPTION = "core::option::Option"


def norm(m):
    """identity of a map: mutation wrappers removed"""
    if isinstance(m, tuple) and m:
        if m[0] == "mut":
            return norm(m[3][0])
        return tuple(norm(x) if isinstance(x, tuple) else x for x in m)
    return m


class T6(Tracer):
    def has(self, st, m, k):
        """[(state, present)]"""
        key = ("has", m, k)
        v = st.dec.get(key)
        if v is not None:
            return [(st, v)]
        return [(self.put_dec(st, key, 1), 1), (self.put_dec(st, key, 0), 0)]

    def slot(self, st, m, k):
        for e in reversed(st.evs):
            if e.name == "map.insert" and e.args[0] == m and e.args[1] == k:
                return ("slot", m, k, e.args[2])
        return ("slot", m, k, None)

    def ins(self, st, m, k, v, fn, line):
        s = self.put_dec(st, ("has", m, k), 1)
        e = Ev("map.insert", (m, k, v), (), None, fn, line, None, len(st.dec))
        e.ty = ""
        s.evs += (e,)
        return s

    def std(self, name, path, raw, fn, line, st, stack):
        mo = MAPOP.search(name)
        if mo:
            op = mo.group(2)
            if op in ("new", "with_capacity", "default", "with_hasher", "with_capacity_and_hasher"):
                return None
            m = norm(self.resolve(st, raw[0]))
            k = norm(self.resolve(st, raw[1])) if len(raw) > 1 else None
            if op == "contains_key":
                return [(s, ("int", h)) for s, h in self.has(st, m, k)]
            if op in ("get", "get_mut", "remove"):
                return [(s, ("agg", OPTION, h, (self.slot(s, m, k),) if h else ())) for s, h in self.has(st, m, k)]
            if op in ("insert", "insert_unique_unchecked", "try_insert"):
                v = self.resolve(st, raw[2])
                s = self.ins(st, m, k, v, fn, line)
                return [(s, ("call", "map.insert.result", None, ()))]
            if op in ("entry", "entry_ref"):
                return [(st, ("entry", m, k))]
            return None
        eo = ENTRY.search(name)
        if eo:
            op = eo.group(3)
            e = self.resolve(st, raw[0])
            b = e
            while b[0] in ("fld", "var"):
                b = b[1]
            if b[0] != "entry":
                return None
            _, m, k = b
            if op in ("or_insert_with", "or_insert", "or_insert_with_key"):
                out = []
                for s, h in self.has(st, m, k):
                    if h:
                        out.append((s, self.slot(s, m, k)))
                    elif op == "or_insert":
                        s2 = self.ins(s, m, k, self.resolve(s, raw[1]), fn, line)
                        out.append((s2, self.slot(s2, m, k)))
                    else:
                        for s2, v in self.apply(raw[1], [k] if op.endswith("key") else [], fn, line, s, stack):
                            s3 = self.ins(s2, m, k, self.resolve(s2, v), fn, line)
                            out.append((s3, self.slot(s3, m, k)))
                return out
            if "Occupied" in eo.group(1) and op in ("get", "get_mut", "into_mut"):
                return [(st, self.slot(st, m, k))]
            if "Vacant" in eo.group(1) and op == "insert":
                s = self.ins(st, m, k, self.resolve(st, raw[1]), fn, line)
                return [(s, self.slot(s, m, k))]
            return None
        if path.endswith("ops::index::Index::index") and re.search(r"HashMap|BTreeMap", name):
            m, k = norm(self.resolve(st, raw[0])), norm(self.resolve(st, raw[1]))
            return [(s, self.slot(s, m, k)) for s, h in self.has(st, m, k) if h]
        return super().std(name, path, raw, fn, line, st, stack)


def canon(t):
    """term with call identities renumbered in order of appearance and slots reduced to their entry"""
    ren = {}
    memo = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if id(x) in memo:
            return memo[id(x)]
        if x and x[0] in ("call", "mut") and len(x) == 4:
            args = tuple(go(y) for y in x[3])
            u = None if x[2] is None else ren.setdefault(x[2], len(ren))
            r = (x[0], x[1], u, args)
        elif x and x[0] == "slot":
            r = ("slot", go(x[1]), go(x[2]))
        else:
            r = tuple(go(y) if isinstance(y, tuple) else y for y in x)
        memo[id(x)] = r
        return r
    return go(t)


def subst(t, key, by):
    memo = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x == key:
            return by
        if id(x) in memo:
            return memo[id(x)]
        r = memo[id(x)] = tuple(go(y) if isinstance(y, tuple) else y for y in x)
        return r
    return go(t)


POINTS = (4, 6, 8, 16, 24, 64, 96, 1024)


def points(t, memo):
    """a pure arithmetic term over the key as its exact values at a few keys (so that 2*n, n*2 and n<<1 are one table), or None"""
    if not isinstance(t, tuple) or not t:
        return None
    if id(t) in memo:
        return memo[id(t)][1]
    r = None
    if t == ("key",):
        r = tuple(Fraction(x) for x in POINTS)
    elif t[0] == "int" and isinstance(t[1], int):
        r = (Fraction(t[1]),) * len(POINTS)
    elif t[0] == "flt" and t[2] in (32, 64) and isinstance(t[1], int):
        v = struct.unpack("<f" if t[2] == 32 else "<d", t[1].to_bytes(t[2] // 8, "little"))[0]
        if v == v and abs(v) != float("inf"):
            r = (Fraction(v),) * len(POINTS)
    elif t[0] == "cast" and len(t) >= 3:
        a = points(t[1], memo)
        if a is not None:
            ty = str(t[2])
            if ty in ("f32", "f64"):
                r = a
            elif re.match(r"[ui](\d+|size)$", ty) and all(x >= 0 for x in a):
                b = 64 if "size" in ty else int(ty[1:])
                r = tuple(Fraction(int(x) % (1 << b)) for x in a)
    elif t[0] == "fld" and t[2] == 0 and t[1][0] == "bin" and "WithOverflow" in t[1][1]:
        r = points(("bin", t[1][1].replace("WithOverflow", "")) + t[1][2:], memo)
    elif t[0] == "bin" and len(t) == 4:
        a, b = points(t[2], memo), points(t[3], memo)
        if a is not None and b is not None:
            o = t[1].replace("Unchecked", "")
            ints = all(x.denominator == 1 for x in a + b)
            try:
                if o in ("Add", "Sub", "Mul"):
                    r = tuple({"Add": x + y, "Sub": x - y, "Mul": x * y}[o] for x, y in zip(a, b))
                elif o == "Div" and has_float(t):
                    r = tuple(x / y for x, y in zip(a, b))
                elif ints and o in ("Div", "Rem", "Shl", "Shr", "BitAnd", "BitOr", "BitXor") and all(x >= 0 for x in a + b):
                    fn = {"Div": lambda x, y: x // y, "Rem": lambda x, y: x % y, "Shl": lambda x, y: x << y, "Shr": lambda x, y: x >> y,
                          "BitAnd": lambda x, y: x & y, "BitOr": lambda x, y: x | y, "BitXor": lambda x, y: x ^ y}[o]
                    r = tuple(Fraction(fn(int(x), int(y))) for x, y in zip(a, b))
            except (ZeroDivisionError, OverflowError, MemoryError):
                r = None
    memo[id(t)] = (t, r)
    return r


def has_float(t):
    while isinstance(t, tuple) and t and t[0] == "bin":
        t = t[2] if t[2][0] != "int" else t[3]
    return isinstance(t, tuple) and t and (t[0] == "flt" or (t[0] == "cast" and str(t[2]) in ("f32", "f64")))


def arith(t):
    """pure arithmetic over the key replaced by its values"""
    memo, vals = {}, {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if id(x) in memo:
            return memo[id(x)][1]
        v = points(x, vals) if x and x[0] in ("bin", "cast", "int", "flt", "key", "fld") else None
        r = ("vec", v) if v is not None else tuple(go(y) if isinstance(y, tuple) else y for y in x)
        memo[id(x)] = (x, r)
        return r
    return go(t)


def recover(key):
    """terms that are determined by the key"""
    out = [key]
    if key[0] == "agg":
        for x in key[3]:
            out += recover(x)
    elif key[0] == "bin" and len(key) >= 4:
        a, b = key[2], key[3]
        if key[1] in ("Add", "Sub", "BitXor", "AddUnchecked", "SubUnchecked", "AddWithOverflow", "SubWithOverflow"):
            if b[0] == "int":
                out += recover(a)
            if a[0] == "int":
                out += recover(b)
        elif key[1] in ("Mul", "Shl", "MulWithOverflow"):
            if b[0] == "int" and (b[1] or key[1] == "Shl"):
                out += recover(a)
            if a[0] == "int" and a[1] and key[1] != "Shl":
                out += recover(b)
    elif key[0] == "cast" and len(key) >= 3 and str(key[2]) in ("u64", "usize", "u128", "i128"):
        out += recover(key[1])
    elif key[0] in ("fld",) and key[1][0] == "bin":
        out += recover(("bin",) + key[1][1:])
    return out


def inputs(t):
    """maximal projections of the caller's arguments inside a term"""
    out = set()

    def go(x):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] == "slot":
            go(x[2])
            return
        if x[0] == "mut" and len(x) == 4:
            # a buffer rewritten in place: what it held before is not followed (it may be cleared first)
            for z in x[3][1:]:
                go(z)
            if x[3][0] and x[3][0][0] == "mut":
                go(x[3][0])
            return
        y = x
        while isinstance(y, tuple) and y and y[0] in ("fld", "var", "idx"):
            if y[0] == "idx":
                go(y[2]) if isinstance(y[2], tuple) else None
            y = y[1]
        if isinstance(y, tuple) and y and y[0] == "mut":
            go(y)
            return
        if isinstance(y, tuple) and y and y[0] == "arg":
            out.add(x)
            return
        for z in x:
            go(z)
    go(t)
    return out


def show(t, n=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if t[0] == "arg":
        return str(t[2] or f"argument {t[1]}")
    if t[0] == "fld":
        return show(t[1]) + "." + str(t[2])
    if t[0] == "int":
        return str(t[1])
    if t[0] == "bin":
        return f"{t[1]}({show(t[2], n + 1)}, {show(t[3], n + 1)})"
    if t[0] == "key":
        return "key"
    if t[0] == "call":
        return f"{t[1].split('::')[-1]}({', '.join(show(x, n + 1) for x in t[3][:3]) if n < 3 else '...'})"
    return t[0]


def skeleton(t):
    """the term with its numeric constants erased"""
    memo = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x and x[0] in ("int", "flt", "key", "vec"):
            return ("num",)
        if id(x) in memo:
            return memo[id(x)]
        r = tuple(go(y) if isinstance(y, tuple) else y for y in x)
        if r and r[0] == "bin" and all(y == ("num",) for y in r[2:] if isinstance(y, tuple)):
            r = ("num",)
        memo[id(x)] = r
        return r
    return go(t)


def mapsites(prog, g):
    """functions with a map operation of their own (closures count for the function that contains them)"""
    D = {}
    for k, f in prog.fns.items():
        if SKIP.search(k):
            continue
        n = sum(1 for c in g.calls(f) if MAPOP.search((c.inst or c.callee or "").split("|")[0]) and not MAPOP.search((c.inst or c.callee).split("|")[0]).group(2) in ("new", "default", "with_capacity"))
        n += sum(1 for c in g.calls(f) if re.search(r"Index::index$", c.callee or "") and re.search("HashMap|BTreeMap", c.inst or ""))
        if n:
            base = re.sub(r"(::\{closure#\d+\})+", "", f.path)
            D.setdefault(base, set()).add(k)
    return D


def run(w, rep, tier):
    cov = {"functions": set(), "paths": 0, "stores": 0, "maps": set(), "static": 0, "undecided": set(), "lookups": 0}
    seen = {}
    for cfg, _ in configs(tier):
        prog = Prog(w.kofft(cfg))
        g = Graph(prog)
        D = set(mapsites(prog, g))
        path2 = {k: re.sub(r"(::\{closure#\d+\})+", "", f.path) for k, f in prog.fns.items()}
        direct = {k for k in prog.fns if path2[k] in D and not SKIP.search(k)}
        opq = {k for k in prog.fns if not prog.fns[k].d.get("closure")}
        size = {}

        def reachn(k):
            if k not in size:
                size[k] = len(g.reach(k, lambda z: z in direct))
            return size[k]

        def intlike(f, i):
            s = prog.tys[f.locals[i][0]]["s"]
            return bool(re.match(r"^&?(mut )?(usize|u\d+|i\d+|isize|bool|f32|f64|\(usize, \w+\)|[\w:]*(Kind|Strategy|Type)\w*)$", s))

        def helper(f):
            """needs its caller to know what is stored"""
            if f.d.get("exported"):
                return False
            for i in range(1, f.argc + 1):
                T = prog.tys[f.locals[i][0]]
                s = T["s"]
                if re.search(r"HashMap<|BTreeMap<|closure@|fn\(", s) and not re.match(r"^&(mut )?\w+::\w+Planner", s):
                    return True
                if i == 1 and T["k"] == "ref" and re.search(r"Planner|kofft|^&(mut )?[\w:]+<?", s) and prog.tys[T["e"]]["k"] == "adt":
                    continue
                if not intlike(f, i):
                    return True
            return False
        roots = set()
        for k in sorted(direct):
            f = prog.fns[k]
            if f.d.get("closure"):
                continue
            if helper(f):
                # analyse its callers instead
                todo, done = [k], {k}
                while todo:
                    y = todo.pop()
                    for z, fz in prog.fns.items():
                        if y in g.refs(fz) and z not in done:
                            done.add(z)
                            if fz.d.get("closure") or (z in direct and helper(fz)):
                                todo.append(z)
                            elif fz.d.get("exported") or not helper(fz) or True:
                                roots.add(z)
            else:
                roots.add(k)
        stores = {}
        for k in sorted(roots):
            f = prog.fns[k]
            sig = (k, f.d.get("h"), tuple(sorted((y, prog.fns[y].d.get("h")) for y in g.reach(k))))
            cov["functions"].add(k)

            def opaque(y):
                if y in direct:
                    return y in roots and y != k
                return reachn(y) > 14
            T = T6(prog, opaque, visits=2 if tier == "quick" else 3)
            T.exits = []
            args = [("arg", i, f.locals[i][1]) for i in range(1, f.argc + 1)]
            try:
                outs = T.run(f, args)
            except TooMany:
                cov["undecided"].add(short(k))
                continue
            cov["paths"] += len(outs)
            check_function(rep, cov, prog, cfg, k, f, outs, stores)
        compare_sites(rep, cov, cfg, stores)
    rep.cov.update(functions_traced=len(cov["functions"]), paths=cov["paths"], stores=cov["stores"], maps=sorted(cov["maps"]),
                   lookups_with_answer=cov["lookups"], compiled_in_tables=cov["static"], undecided=sorted(cov["undecided"]))


def mapname(prog, f, m, outs):
    """(structure, field) a map belongs to, or None"""
    y, chain = m, []
    while y[0] == "fld":
        chain.append(y[2])
        y = y[1]
    if y[0] == "arg":
        t = f.locals[y[1]][0]
        while prog.tys[t]["k"] in ("ref", "ptr"):
            t = prog.tys[t]["e"]
        for i in reversed(chain):
            T = prog.tys[t]
            vs = T.get("variants")
            if not vs or i >= len(vs[0]["fields"]):
                return None
            last = (T["s"], vs[0]["fields"][i][0])
            t = vs[0]["fields"][i][1]
            while prog.tys[t]["k"] in ("ref", "ptr"):
                t = prog.tys[t]["e"]
        return last if chain else None
    # a map created here and stored into the structure being returned
    for st, ret in outs:
        for x in subterms(ret) if isinstance(ret, tuple) else ():
            if x[0] == "agg" and isinstance(x[1], str) and x[1].startswith("kofft::"):
                for i, v in enumerate(x[3]):
                    if norm(v) == m:
                        rt = f.locals[0][0]
                        T = prog.tys[rt]
                        if T["k"] == "adt" and T.get("path") == x[1] and T.get("variants"):
                            return (T["s"], T["variants"][0]["fields"][i][0])
    return None


def check_function(rep, cov, prog, cfg, k, f, outs, stores):
    groups = {}
    answers = {}
    for st, ret in outs:
        dec = st.dec
        for e in st.evs:
            if e.name != "map.insert":
                continue
            m, key, v = e.args
            cov["stores"] += 1
            nm = mapname(prog, f, m, outs)
            val = v
            for r in recover(key):
                val = subst(val, r, ("key",))
            left = inputs(val)
            # a value that only repeats the reference to the planner inside an opaque call is not decided
            hard = {x for x in left if not (x[0] == "arg" and prog.tys[f.locals[x[1]][0]]["k"] in ("ref", "ptr"))}
            # buffers of the planner that this path rewrites before using them
            for y in st.evs:
                if y is e:
                    break
                if y.args and REWRITE.search(y.name):
                    hard = {x for x in hard if x != y.args[0]}
            for x in sorted(hard, key=str):
                rep.viol(e.fn.path if hasattr(e.fn, "path") else f.path, f.file, e.line, "key-too-small",
                         f"the table {short(k)} stores in {nm[1] if nm else 'a map'} depends on {show(x)}, which its key {show(key)} does not determine", config=cfg)
            # conditions: those the key determines, and the others
            det, oth = [], []
            for d, c in dec.items():
                if d[0] == "has":
                    continue
                dd = norm(d)
                for r in recover(key):
                    dd = subst(dd, r, ("key",))
                ii = inputs(dd)
                (oth if ii else det).append((canon(dd), c))
            cv = arith(canon(val))
            groups.setdefault((nm, canon(key), e.line, tuple(sorted(det, key=str))), {}).setdefault(cv, []).append(tuple(oth))
            if nm:
                cov["maps"].add(f"{nm[0]}.{nm[1]}")
                stores.setdefault(nm, {}).setdefault((k, e.line, f.file, f.path), set()).add(cv)
        # answers
        sl = []

        def slots(x):
            if isinstance(x, tuple) and x:
                if x[0] == "slot":
                    sl.append((norm(x[1]), norm(x[2])))
                    return
                for y in x:
                    slots(y)
        slots(ret)
        if sl:
            cov["lookups"] += 1
            answers.setdefault(tuple(dict.fromkeys(sl)), []).append(st)
            inserted = [(norm(e.args[0]), norm(e.args[1]), e) for e in st.evs if e.name == "map.insert"]
            if len(inserted) == 1 and len(set(sl)) == 1 and (inserted[0][0], inserted[0][1]) != sl[0]:
                rep.viol(f.path, f.file, inserted[0][2].line, "wrong-entry", f"{short(k)} stores the table under {show(inserted[0][1])} but answers from the entry {show(sl[0][1])}"
                         + (" of another map" if inserted[0][0] != sl[0][0] else ""), config=cfg)
        static_answer(rep, cov, prog, cfg, k, f, st, ret)
    for (nm, key, line, det), vals in groups.items():
        if len(vals) > 1 and any(o for os in vals.values() for o in os):
            d = sorted({show(x[0]) for os in vals.values() for o in os for x in o})
            rep.viol(f.path, f.file, line, "key-too-small", f"the table {short(k)} stores depends on a condition its key does not determine ({', '.join(d)[:120]})", config=cfg)
    if len(answers) > 1:
        a = sorted(answers, key=str)
        maps = {x[0] for y in a for x in y}
        rep.viol(f.path, f.file, f.line, "hit-miss-differ", f"{short(k)} answers equal requests from different entries: "
                 + " / ".join(", ".join(show(x[1]) + " in field " + str(x[0][2] if x[0][0] == 'fld' else '?') for x in y) for y in a[:3]), config=cfg)


def static_answer(rep, cov, prog, cfg, k, f, st, ret):
    """a compiled-in table returned on a path where the size was compared with a constant"""
    for x in subterms(ret) if isinstance(ret, tuple) else ():
        if x[0] == "call" and "get_or_init" in x[1]:
            keys = [y[1][1] for y in subterms(x) if y[0] == "agg" and isinstance(y[1], tuple) and y[1][0] == "closure"]
            keys += [y[1] for y in subterms(x) if y[0] == "fn" and y[1] in prog.fns]
            consts = [(d[2], d[3][1]) for d, c in st.dec.items() if d[0] == "bin" and d[1] == "Eq" and c == 1 and d[3][0] == "int" and inputs(d[2])]
            if len(keys) != 1 or len(consts) != 1 or keys[0] not in prog.fns:
                continue
            d, c = consts[0]
            cov["static"] += 1
            if d[0] != "arg":
                rep.viol(f.path, f.file, f.line, "compiled-in", f"{short(k)} picks a compiled-in table by {show(d)} instead of the requested size", config=cfg)
                continue
            lens = []
            for b in prog.fns[keys[0]].blocks:
                for cst in consts_of(b):
                    if "static" in cst:
                        t = prog.tys[cst["ty"]]
                        while t["k"] in ("ref", "ptr"):
                            t = prog.tys[t["e"]]
                        mm = re.search(r"; (\d+)(_usize)?\]$", t["s"])
                        if mm:
                            lens.append((int(mm.group(1)), cst["static"]))
            if len(lens) == 1 and lens[0][0] * 2 != c:
                rep.viol(f.path, f.file, f.line, "compiled-in", f"{short(k)} answers size {c} with {lens[0][1]}, which has {lens[0][0]} entries", config=cfg)


def consts_of(x):
    from .graph import walk_consts
    return walk_consts([x["s"], x["t"]])


def compare_sites(rep, cov, cfg, stores):
    for nm, sites in sorted(stores.items()):
        items = sorted(sites.items(), key=lambda x: (x[0][2], x[0][1], x[0][0]))
        for i in range(len(items)):
            for j in range(i + 1, len(items)):
                (ka, la, fa, pa), va = items[i]
                (kb, lb, fb, pb), vb = items[j]
                if va == vb:
                    continue
                if {skeleton(x) for x in va - vb} & {skeleton(x) for x in vb - va}:
                    rep.viol(pb, fb, lb, "builders-differ", f"{nm[0]}.{nm[1]} is filled by {short(ka)} (line {la}) and by {short(kb)} with different tables for the same key", config=cfg)
                else:
                    cov["undecided"].add(f"{nm[0]}.{nm[1]}: builders of {short(ka)} and {short(kb)} not comparable")
